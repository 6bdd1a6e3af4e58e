(* Priority-Flood flow directions and watershed labels *)
module PFX
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  use export pf.PF

  (* ---- flow directions: the queue holds the raw elevations; l is the highest elevation popped so far *)
  predicate fd_state (w h: int) (z f: int -> real) (cl: int -> int) (st: pqs) (l: real) (done_: int -> bool) =
    q_ok w h z cl st /\
    (forall q [mem q st]. mem q st -> f (idx w q.zx q.zy) = rmaxl q.zz l) /\
    (forall c [cl c]. cellok w h c -> cl c <> 0 -> done_ c \/ mem (qe w z c) st) /\
    (forall c [cl c]. cellok w h c -> edge w h c -> cl c <> 0 /\ f c = z c) /\
    (forall c [done_ c]. cellok w h c -> done_ c -> cl c <> 0 /\ f c <=. l)
  let lemma fd_init (w h: int) (z: int -> real) (cl: int -> int) (st: pqs) : unit
    requires { pf_init w h z cl st /\ 1 <= w /\ 1 <= h /\ 0 < size st }
    requires { forall c. cellok w h c -> edge w h c -> cl c <> 0 }
    ensures { fd_state w h z z cl st (top st).zz no_cell }
  = assert { forall q. mem q st -> (top st).zz <=. q.zz }
  let lemma fd_pop (w h: int) (z f: int -> real) (cl: int -> int) (st st2: pqs) (l: real) (done_: int -> bool) (c: gcz) : unit
    requires { fd_state w h z f cl st l done_ /\ popped st st2 c }
    ensures { fd_state w h z f cl st2 (rmaxl c.zz l) (Map.set done_ (idx w c.zx c.zy) true) }
    ensures { ing w h c.zx c.zy /\ z (idx w c.zx c.zy) = c.zz /\ f (idx w c.zx c.zy) = rmaxl c.zz l /\ cl (idx w c.zx c.zy) <> 0 }
    ensures { forall d. cellok w h d -> Map.get (Map.set done_ (idx w c.zx c.zy) true) d -> f d <=. rmaxl c.zz l }
  = assert { forall q. mem q st -> c.zz <=. q.zz };
    assert { forall d. mem (qe w z d) st -> 0 < w -> d = idx w c.zx c.zy \/ mem (qe w z d) st2 }
  let lemma fd_add (w h: int) (z f f2: int -> real) (cl cl2: int -> int) (st st2: pqs) (l: real) (done_: int -> bool) (ni: int) : unit
    requires { fd_state w h z f cl st l done_ }
    requires { cellok w h ni /\ cl ni = 0 /\ cl2 ni <> 0 /\ same_but ni f f2 /\ same_but ni cl cl2 /\ 0 < w /\ 0 <= h }
    requires { pushed st st2 (qe w z ni) } requires { f2 ni = rmaxl (z ni) l }
    ensures { fd_state w h z f2 cl2 st2 l done_ }
  = assert { forall q. mem q st -> idx w q.zx q.zy <> ni }
  (* neighbours are visited in the order 1 3 5 7 2 4 6 8 *)
  function fd_pos (n: int) : int = if n = 1 then 1 else if n = 3 then 2 else if n = 5 then 3 else if n = 7 then 4 else if n = 2 then 5 else if n = 4 then 6 else if n = 6 then 7 else 8
  predicate fd_nb (w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (cur k: int) =
    forall c n [hasn 8 w h c n, done_ c]. cellok w h c -> done_ c -> hasn 8 w h c n -> (c = cur -> fd_pos n < k) ->
        cl (nbr 8 w c n) <> 0 /\ (not (edge w h (nbr 8 w c n)) -> f (nbr 8 w c n) <=. rmaxl (z (nbr 8 w c n)) (f c))
  let lemma fd_nb_start (w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (ci: int) : unit
    requires { pf_nb 8 w h z f cl done_ (-1) 0 }
    ensures { fd_nb w h z f cl (Map.set done_ ci true) ci 1 }
  = ()
  let lemma fd_nb_end (w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (ci k: int) : unit
    requires { fd_nb w h z f cl done_ ci k /\ 8 < k }
    ensures { pf_nb 8 w h z f cl done_ (-1) 0 }
  = ()
  let lemma fd_nb_skip (w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt cur k n: int) : unit
    requires { pf_tree 8 w h z f cl done_ rank par cnt }
    requires { fd_nb w h z f cl done_ cur k /\ fd_pos n = k /\ 1 <= n <= 8 }
    requires { cellok w h cur -> forall d. cellok w h d -> done_ d -> f d <=. f cur }
    ensures { (hasn 8 w h cur n -> cl (nbr 8 w cur n) <> 0) -> fd_nb w h z f cl done_ cur (k+1) }
  = assert { forall c i. cellok w h c -> done_ c -> hasn 8 w h c i -> c = cur -> fd_pos i < k+1 -> fd_pos i < k \/ i = n };
    assert { cellok w h cur -> done_ cur -> hasn 8 w h cur n -> cl (nbr 8 w cur n) <> 0 -> not (edge w h (nbr 8 w cur n)) -> f (nbr 8 w cur n) <=. rmaxl (z (nbr 8 w cur n)) (f cur) }
  let lemma fd_nb_add (w h: int) (z f f2: int -> real) (cl cl2: int -> int) (done_: int -> bool) (cur k n: int) : unit
    requires { fd_nb w h z f cl done_ cur k /\ fd_pos n = k }
    requires { hasn 8 w h cur n /\ cellok w h cur /\ cl (nbr 8 w cur n) = 0 /\ done_ cur /\ cl cur <> 0 }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { same_but (nbr 8 w cur n) f f2 /\ same_but (nbr 8 w cur n) cl cl2 }
    requires { cl2 (nbr 8 w cur n) <> 0 /\ f2 (nbr 8 w cur n) = rmaxl (z (nbr 8 w cur n)) (f cur) }
    ensures { fd_nb w h z f2 cl2 done_ cur (k+1) }
  = assert { forall c i. cellok w h c -> done_ c -> hasn 8 w h c i -> (c = cur -> fd_pos i < k) -> nbr 8 w c i <> nbr 8 w cur n };
    assert { forall c i. cellok w h c -> done_ c -> hasn 8 w h c i -> c = cur -> fd_pos i < k+1 -> fd_pos i < k \/ i = n }
  predicate offr (w h c d: int) = 1 <= d <= 8 /\ not (ing w h (ix w c + d8x d) (iy w c + d8y d))
  (* the edge cells of row 0 and row h-1 left of x, and of the columns above y, point off the raster *)
  predicate fd_top (w h: int) (dir: int -> int) (x: int) =
    forall c [dir c]. cellok w h c -> ix w c < x -> (iy w c = 0 \/ iy w c = h - 1) -> offr w h c (dir c)
  predicate fd_sides (w h: int) (dir: int -> int) (y: int) =
    forall c [dir c]. cellok w h c -> edge w h c -> (iy w c < y \/ iy w c = h - 1) -> offr w h c (dir c)
  let lemma fd_top_add (w h: int) (dir dir2: int -> int) (x d1 d2: int) : unit
    requires { fd_top w h dir x /\ 0 <= x < w /\ 1 <= h }
    requires { dir2 = Map.set (Map.set dir (idx w x 0) d1) (idx w x (h-1)) d2 }
    requires { d1 = 3 /\ d2 = 7 }
    ensures { fd_top w h dir2 (x+1) }
  = assert { offr w h (idx w x (h-1)) d2 /\ (h > 1 -> offr w h (idx w x 0) d1) };
    assert { forall c. cellok w h c -> ix w c = x -> iy w c = 0 \/ iy w c = h - 1 -> c = idx w x 0 \/ c = idx w x (h-1) }
  let lemma fd_side_add (w h: int) (dir dir2: int -> int) (y d1 d2: int) : unit
    requires { fd_sides w h dir y /\ 1 <= w /\ 1 <= y < h - 1 }
    requires { dir2 = Map.set (Map.set dir (idx w 0 y) d1) (idx w (w-1) y) d2 }
    requires { d1 = 1 /\ d2 = 5 }
    ensures { fd_sides w h dir2 (y+1) }
  = assert { offr w h (idx w 0 y) d1 /\ offr w h (idx w (w-1) y) d2 };
    assert { forall c. cellok w h c -> edge w h c -> iy w c = y -> c = idx w 0 y \/ c = idx w (w-1) y }
  predicate fd_edges (w h: int) (dir: int -> int) = forall c [dir c]. cellok w h c -> edge w h c -> offr w h c (dir c)
  let lemma fd_corners (w h: int) (dir dir2: int -> int) : unit
    requires { fd_edges w h dir /\ 1 <= w /\ 1 <= h }
    requires { dir2 = Map.set (Map.set (Map.set (Map.set dir (idx w 0 0) 2) (idx w (w-1) 0) 4) (idx w 0 (h-1)) 8) (idx w (w-1) (h-1)) 6 }
    ensures { fd_edges w h dir2 }
  = assert { offr w h (idx w 0 0) 2 /\ offr w h (idx w (w-1) 0) 4 };
    assert { offr w h (idx w 0 (h-1)) 8 /\ offr w h (idx w (w-1) (h-1)) 6 }
  predicate fd_dirs (w h: int) (z: int -> real) (nd: real) (dir: int -> int) (cl: int -> int) (par: int -> int) =
    fd_edges w h dir /\
    (forall c [dir c]. cellok w h c -> not (edge w h c) -> cl c <> 0 ->
       (z c = nd -> dir c = 0) /\ (z c <> nd -> 1 <= dir c <= 8 /\ hasn 8 w h c (dir c) /\ nbr 8 w c (dir c) = par c))
  let lemma fd_dir_add (w h: int) (z: int -> real) (nd: real) (dir dir2: int -> int) (cl cl2: int -> int) (par: int -> int) (cur k: int) : unit
    requires { fd_dirs w h z nd dir cl par }
    requires { cellok w h cur /\ hasn 8 w h cur k /\ cl (nbr 8 w cur k) = 0 /\ not (edge w h (nbr 8 w cur k)) }
    requires { same_but (nbr 8 w cur k) dir dir2 /\ same_but (nbr 8 w cur k) cl cl2 }
    requires { dir2 (nbr 8 w cur k) = if z (nbr 8 w cur k) = nd then 0 else d8_inverse k }
    ensures { fd_dirs w h z nd dir2 cl2 (Map.set par (nbr 8 w cur k) cur) }
  = let ghost ni = nbr 8 w cur k in
    assert { ix w ni = ix w cur + d8x k /\ iy w ni = iy w cur + d8y k };
    assert { d8x (d8_inverse k) = - d8x k /\ d8y (d8_inverse k) = - d8y k /\ 1 <= d8_inverse k <= 8 };
    assert { ix w ni + d8x (d8_inverse k) = ix w cur /\ iy w ni + d8y (d8_inverse k) = iy w cur };
    assert { hasn 8 w h ni (d8_inverse k) };
    assert { nbr 8 w ni (d8_inverse k) = cur }
  predicate is_fd (w h: int) (z: int -> real) (nd: real) (dir: int -> int) =
    fd_edges w h dir /\
    exists f rank par. witness 8 w h z f rank par /\
      (forall c. cellok w h c -> not (edge w h c) ->
         (z c = nd -> dir c = 0) /\ (z c <> nd -> 1 <= dir c <= 8 /\ hasn 8 w h c (dir c) /\ nbr 8 w c (dir c) = par c))
  let lemma fd_final (w h: int) (z f: int -> real) (nd: real) (dir: int -> int) (cl: int -> int) (rank par: int -> int) : unit
    requires { fd_dirs w h z nd dir cl par /\ witness 8 w h z f rank par }
    requires { forall c. cellok w h c -> cl c <> 0 }
    ensures { is_fd w h z nd dir }
  = ()

  (* ---- watershed labels *)
  predicate ws_elev (w h: int) (z f e: int -> real) (cl: int -> int) (alter: bool) =
    forall c [e c]. cellok w h c -> e c = if alter && cl c <> 0 then f c else z c
  let lemma ws_elev_add (w h: int) (z f f2 e e2: int -> real) (cl cl2: int -> int) (alter: bool) (l: real) (ni: int) : unit
    requires { ws_elev w h z f e cl alter }
    requires { cellok w h ni /\ cl ni = 0 /\ same_but ni f f2 /\ same_but ni cl cl2 /\ cl2 ni <> 0 }
    requires { f2 ni = if z ni <. l then l else z ni }
    requires { (alter = true /\ z ni <=. l /\ e2 = Map.set e ni l) \/ (not (alter = true /\ z ni <=. l) /\ e2 = e) }
    ensures { ws_elev w h z f2 e2 cl2 alter }
  = ()
  (* the value by which a cell is taken for NoData: the raster is overwritten while labels are given *)
  function seen (alter: bool) (z f: int -> real) : int -> real = if alter then f else z
  let lemma fill_ext (m w h: int) (z f e: int -> real) : unit
    requires { is_fill m w h z f }
    requires { forall c. cellok w h c -> e c = f c }
    ensures { is_fill m w h z e }
  = assert { forall rank par. witness m w h z f rank par -> witness m w h z e rank par }
  let lemma ws_alter (m w h: int) (z f e: int -> real) (nd: real) (cl: int -> int) (alter: bool) : unit
    requires { ws_elev w h z f e cl alter /\ is_fill m w h z f }
    requires { forall c. cellok w h c -> cl c <> 0 }
    requires { forall c. cellok w h c -> z c <=. f c }
    requires { forall c. cellok w h c -> nd <=. z c }
    ensures { if alter then is_fill m w h z e else forall c. cellok w h c -> e c = z c }
    ensures { forall c. cellok w h c -> z c <> nd -> seen alter z f c <> nd }
  = if alter then fill_ext m w h z f e
  predicate ws_seed (w h: int) (lab par: int -> int) (c: int) = lab c <> -1 /\ (edge w h c \/ lab (par c) = -1)
  predicate ws_ok (w h: int) (z: int -> real) (nd: real) (lab: int -> int) (cl: int -> int) (done_: int -> bool) (par: int -> int) (k: int) =
    1 <= k /\
    (forall c [lab c]. cellok w h c -> cl c <> 0 -> lab c = -1 \/ 1 <= lab c < k) /\
    (forall c [lab c]. cellok w h c -> done_ c -> z c <> nd -> lab c <> -1) /\
    (forall c [lab c]. cellok w h c -> done_ c -> not (edge w h c) -> lab (par c) <> -1 -> lab c = lab (par c)) /\
    (forall c [lab c]. cellok w h c -> cl c <> 0 -> not (done_ c) -> edge w h c -> lab c = -1) /\
    (forall c [lab c]. cellok w h c -> cl c <> 0 -> not (done_ c) -> not (edge w h c) -> lab c = lab (par c)) /\
    (forall c d [lab c, lab d]. cellok w h c -> cellok w h d -> done_ c -> done_ d -> ws_seed w h lab par c -> ws_seed w h lab par d -> c <> d -> lab c <> lab d)
  let lemma ws_label (m w h: int) (z f v: int -> real) (nd: real) (lab lab2: int -> int) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt k k2 ci: int) : unit
    requires { ws_ok w h v nd lab cl done_ par k }
    requires { pf_tree m w h z f cl done_ rank par cnt }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { cellok w h ci /\ cl ci <> 0 }
    requires { (lab ci = -1 /\ v ci <> nd /\ lab2 = Map.set lab ci k /\ k2 = k + 1) \/ (not (lab ci = -1 /\ v ci <> nd) /\ lab2 = lab /\ k2 = k) }
    ensures { ws_ok w h v nd lab2 cl (Map.set done_ ci true) par k2 }
  = assert { lab ci = -1 /\ v ci <> nd -> not (done_ ci) };
    assert { forall c. cellok w h c -> cl c <> 0 -> not (edge w h c) -> done_ (par c) /\ par c <> c };
    assert { lab ci = -1 /\ v ci <> nd -> forall c. cellok w h c -> cl c <> 0 -> not (edge w h c) -> par c <> ci };
    assert { not (edge w h ci) -> not (done_ ci) -> lab ci = lab (par ci) }
  let lemma ws_add (m w h: int) (z f v v2: int -> real) (nd: real) (lab lab2: int -> int) (cl cl2: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt k ci ni: int) : unit
    requires { ws_ok w h v nd lab cl done_ par k }
    requires { pf_tree m w h z f cl done_ rank par cnt }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { cellok w h ci /\ done_ ci /\ cellok w h ni /\ cl ni = 0 /\ not (edge w h ni) }
    requires { lab2 = Map.set lab ni (lab ci) /\ same_but ni cl cl2 /\ cl2 ni <> 0 /\ same_but ni v v2 }
    ensures { ws_ok w h v2 nd lab2 cl2 done_ (Map.set par ni ci) k }
  = assert { forall c. cellok w h c -> cl c <> 0 -> not (edge w h c) -> done_ (par c) /\ par c <> ni /\ c <> ni };
    assert { not (done_ ni) /\ ci <> ni }
  predicate is_ws (m w h: int) (z: int -> real) (nd: real) (lab: int -> int) =
    (forall c. cellok w h c -> lab c = -1 \/ 1 <= lab c) /\
    (forall c. cellok w h c -> z c <> nd -> lab c <> -1) /\
    exists f rank par. witness m w h z f rank par /\
      (forall c. cellok w h c -> not (edge w h c) -> lab (par c) <> -1 -> lab c = lab (par c)) /\
      (forall c d. cellok w h c -> cellok w h d -> ws_seed w h lab par c -> ws_seed w h lab par d -> c <> d -> lab c <> lab d)
  let lemma ws_final (m w h: int) (z f v: int -> real) (nd: real) (lab: int -> int) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (k: int) : unit
    requires { ws_ok w h v nd lab cl done_ par k /\ witness m w h z f rank par }
    requires { forall c. cellok w h c -> cl c <> 0 /\ done_ c }
    requires { forall c. cellok w h c -> z c <> nd -> v c <> nd }
    ensures { is_ws m w h z nd lab }
  = ()
end

(* Priority-Flood: specification and invariants *)
module PF
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base

  type gridcell = { gx: int; gy: int }
  type gcz = { zx: int; zy: int; zz: real }
  predicate gcz_gt (a b: gcz) = a.zz >. b.zz
  clone export rdbase.PQ with type elt = gcz, predicate gt = gcz_gt, axiom .

  (* topology given by its number of neighbours m: 8 or 4 *)
  function tx (m n: int) : int = if m = 8 then d8x n else d4x n
  function ty (m n: int) : int = if m = 8 then d8y n else d4y n
  function nx (m w c n: int) : int = ix w c + tx m n
  function ny (m w c n: int) : int = iy w c + ty m n
  function nbr (m w c n: int) : int = idx w (ix w c + tx m n) (iy w c + ty m n)
  predicate hasn (m w h c n: int) = 1 <= n <= m /\ ing w h (ix w c + tx m n) (iy w c + ty m n)
  predicate edge (w h c: int) = isedge w h (ix w c) (iy w c)
  predicate cellok (w h c: int) = 0 <= c < area w h

  (* f is the flooded surface of z: edges keep their elevation, every interior cell drains along a chain of neighbours of
     decreasing rank on which f = max(z, f of the next), and no neighbour is needlessly higher than that *)
  predicate witness (m w h: int) (z f: int -> real) (rank par: int -> int) =
    (forall c. cellok w h c /\ edge w h c -> f c = z c) /\
    (forall c. cellok w h c /\ not (edge w h c) ->
        cellok w h (par c) /\ (exists n. hasn m w h (par c) n /\ nbr m w (par c) n = c) /\ 0 <= rank (par c) < rank c /\ f c = rmaxl (z c) (f (par c))) /\
    (forall c n. cellok w h c /\ hasn m w h c n /\ not (edge w h (nbr m w c n)) -> f (nbr m w c n) <=. rmaxl (z (nbr m w c n)) (f c))
  predicate is_fill (m w h: int) (z f: int -> real) = exists rank par. witness m w h z f rank par

  (* a surface over which every cell drains: some chain of neighbours of decreasing rank never rises on the way to the edge *)
  predicate drains (m w h: int) (g: int -> real) (rank par: int -> int) =
    forall c. cellok w h c /\ not (edge w h c) ->
        cellok w h (par c) /\ (exists n. hasn m w h (par c) n /\ nbr m w (par c) n = c) /\ 0 <= rank (par c) < rank c /\ g (par c) <=. g c

  (* ---- meta-theorems: the specification determines the surface, which is the least drainable one above z *)
  let rec lemma fill_below (m w h: int) (z f g: int -> real) (rank par grank gpar: int -> int) (c: int) : unit
    requires { witness m w h z f rank par }
    requires { drains m w h g grank gpar }
    requires { forall k. cellok w h k -> z k <=. g k }
    requires { cellok w h c }
    variant { if grank c >= 0 then grank c else 0 }
    ensures { f c <=. g c }
  = if pure { edge w h c } then () else begin
      fill_below m w h z f g rank par grank gpar (gpar c);
      assert { f c <=. rmaxl (z c) (f (gpar c)) }
    end
  let lemma fill_is_drained (m w h: int) (z f: int -> real) (rank par: int -> int) : unit
    requires { witness m w h z f rank par }
    ensures { drains m w h f rank par }
    ensures { forall c. cellok w h c -> z c <=. f c }
  = ()
  let lemma fill_unique (m w h: int) (z f g: int -> real) (c: int) : unit
    requires { is_fill m w h z f } requires { is_fill m w h z g } requires { cellok w h c }
    ensures { f c = g c }
  = assert { forall rf pf rg pg. witness m w h z f rf pf -> witness m w h z g rg pg -> f c <=. g c /\ g c <=. f c }

  (* ---- invariants *)
  function qe (w: int) (f: int -> real) (c: int) : gcz = { zx = ix w c; zy = iy w c; zz = f c }
  predicate q_ok (w h: int) (f: int -> real) (cl: int -> int) (st: pqs) =
    forall q [mem q st]. mem q st -> ing w h q.zx q.zy /\ q.zz = f (idx w q.zx q.zy) /\ cl (idx w q.zx q.zy) <> 0
  predicate pf_init (w h: int) (z: int -> real) (cl: int -> int) (st: pqs) =
    q_ok w h z cl st /\
    (forall c [cl c]. cellok w h c -> cl c <> 0 -> edge w h c /\ mem (qe w z c) st)
  predicate pf_state (w h: int) (z f: int -> real) (cl: int -> int) (st: pqs) (done_: int -> bool) =
    q_ok w h f cl st /\
    (forall c [cl c]. cellok w h c -> cl c <> 0 -> done_ c \/ mem (qe w f c) st) /\
    (forall c [cl c|f c]. cellok w h c -> cl c = 0 -> f c = z c) /\
    (forall c [cl c]. cellok w h c -> edge w h c -> cl c <> 0 /\ f c = z c) /\
    (forall c [done_ c]. cellok w h c -> done_ c -> cl c <> 0) /\
    (forall c q [done_ c, mem q st]. cellok w h c -> done_ c -> mem q st -> f c <=. q.zz)
  predicate pf_tree (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt: int) =
    (forall c [cl c|rank c]. cellok w h c -> cl c <> 0 -> 0 <= rank c < cnt) /\
    (forall c [cl c|par c]. cellok w h c -> cl c <> 0 -> not (edge w h c) ->
        cellok w h (par c) /\ done_ (par c) /\ (exists n. hasn m w h (par c) n /\ nbr m w (par c) n = c) /\ rank (par c) < rank c /\ f c = rmaxl (z c) (f (par c)))
  (* neighbours of finished cells; cell cur is finished only for neighbours below k *)
  predicate pf_nb (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (cur k: int) =
    forall c n [hasn m w h c n, done_ c]. cellok w h c -> done_ c -> hasn m w h c n -> (c = cur -> n < k) ->
        cl (nbr m w c n) <> 0 /\ (not (edge w h (nbr m w c n)) -> f (nbr m w c n) <=. rmaxl (z (nbr m w c n)) (f c))

  let lemma init_add2 (w h: int) (z: int -> real) (cl cl2: int -> int) (st st2: pqs) (x y x2 y2: int) : unit
    requires { pf_init w h z cl st /\ 1 <= w /\ 1 <= h }
    requires { ing w h x y /\ isedge w h x y /\ ing w h x2 y2 /\ isedge w h x2 y2 }
    requires { forall q. mem q st2 <-> (q = { zx = x; zy = y; zz = z (idx w x y) } \/ q = { zx = x2; zy = y2; zz = z (idx w x2 y2) } \/ mem q st) }
    requires { forall c. c <> idx w x y -> c <> idx w x2 y2 -> cl2 c = cl c }
    requires { cl2 (idx w x y) <> 0 /\ cl2 (idx w x2 y2) <> 0 }
    ensures { pf_init w h z cl2 st2 }
  = ()
  (* with a FIFO queue of cells at the current level l in front of the priority queue *)
  predicate inpit (w: int) (f: int -> real) (c: int) (pq: int -> gcz) (hd tl: int) =
    exists k [pq k]. hd <= k < tl /\ pq k = qe w f c
  predicate pit_ok (w h: int) (f: int -> real) (cl: int -> int) (pq: int -> gcz) (hd tl: int) (l: real) =
    forall k [pq k]. hd <= k < tl -> ing w h (pq k).zx (pq k).zy /\ (pq k).zz = l /\
      f (idx w (pq k).zx (pq k).zy) = l /\ cl (idx w (pq k).zx (pq k).zy) <> 0
  predicate pb_state (w h: int) (z f: int -> real) (cl: int -> int) (st: pqs) (pq: int -> gcz) (hd tl: int) (l: real) (done_: int -> bool) =
    q_ok w h f cl st /\ pit_ok w h f cl pq hd tl l /\
    (forall c [cl c]. cellok w h c -> cl c <> 0 -> done_ c \/ mem (qe w f c) st \/ inpit w f c pq hd tl) /\
    (forall c [cl c|f c]. cellok w h c -> cl c = 0 -> f c = z c) /\
    (forall c [cl c]. cellok w h c -> edge w h c -> cl c <> 0 /\ f c = z c) /\
    (forall c [done_ c]. cellok w h c -> done_ c -> cl c <> 0 /\ f c <=. l) /\
    (forall q [mem q st]. mem q st -> l <=. q.zz)
  predicate popped (st st2: pqs) (e: gcz) =
    0 < size st /\ e = top st /\ (forall q [mem q st2]. mem q st2 -> mem q st) /\ (forall q [mem q st]. mem q st -> q = e \/ mem q st2)
  predicate pushed (st st2: pqs) (e: gcz) = forall q [mem q st2|mem q st]. mem q st2 <-> (q = e \/ mem q st)
  let lemma pb_pop (w h: int) (z f: int -> real) (cl: int -> int) (st st2: pqs) (pq: int -> gcz) (hd hd2 tl: int) (l: real) (done_: int -> bool) (c: gcz) : unit
    requires { pb_state w h z f cl st pq hd tl l done_ }
    requires { (hd < tl /\ hd2 = hd + 1 /\ c = pq hd /\ st2 = st) \/ (hd = tl /\ hd2 = hd /\ popped st st2 c) }
    ensures { pb_state w h z f cl st2 pq hd2 tl c.zz (Map.set done_ (idx w c.zx c.zy) true) }
    ensures { ing w h c.zx c.zy /\ f (idx w c.zx c.zy) = c.zz /\ cl (idx w c.zx c.zy) <> 0 }
  = if hd < tl then begin
      assert { forall d. inpit w f d pq hd tl -> d = idx w c.zx c.zy \/ inpit w f d pq hd2 tl }
    end else begin
      assert { forall d. not (inpit w f d pq hd tl) };
      assert { forall q. mem q st -> c.zz <=. q.zz };
      assert { forall d. mem (qe w f d) st -> 0 < w -> d = idx w c.zx c.zy \/ mem (qe w f d) st2 }
    end
  predicate same_but (ni: int) (a b: int -> 'a) = forall c. c <> ni -> a c = b c
  let lemma pb_add (w h: int) (z f f2: int -> real) (cl cl2: int -> int) (st st2: pqs) (pq pq2: int -> gcz) (hd tl tl2: int) (l: real) (done_: int -> bool) (ni: int) : unit
    requires { pb_state w h z f cl st pq hd tl l done_ /\ hd <= tl }
    requires { cellok w h ni /\ cl ni = 0 /\ cl2 ni <> 0 /\ same_but ni f f2 /\ same_but ni cl cl2 /\ 0 < w /\ 0 <= h }
    requires { (tl2 = tl + 1 /\ pq2 = Map.set pq tl (qe w f2 ni) /\ st2 = st /\ f2 ni = l) \/
               (tl2 = tl /\ pq2 = pq /\ pushed st st2 (qe w f2 ni) /\ l <=. f2 ni) }
    ensures { pb_state w h z f2 cl2 st2 pq2 hd tl2 l done_ }
  = assert { forall d. cellok w h d -> d <> ni -> qe w f2 d = qe w f d };
    assert { forall d. cellok w h d -> d <> ni -> inpit w f d pq hd tl -> inpit w f2 d pq2 hd tl2 };
    assert { tl2 = tl + 1 -> inpit w f2 ni pq2 hd tl2 }
  let lemma nb_start (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (ci: int) : unit
    requires { pf_nb m w h z f cl done_ (-1) 0 }
    ensures { pf_nb m w h z f cl (Map.set done_ ci true) ci 1 }
  = ()
  let lemma nb_end (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (ci k: int) : unit
    requires { pf_nb m w h z f cl done_ ci k /\ m < k }
    ensures { pf_nb m w h z f cl done_ (-1) 0 }
  = ()
  (* one more neighbour of cur looked at: it was closed already, or outside *)
  let lemma nb_skip (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt cur k: int) : unit
    requires { pf_tree m w h z f cl done_ rank par cnt }
    requires { pf_nb m w h z f cl done_ cur k }
    requires { cellok w h cur -> forall d. cellok w h d -> done_ d -> f d <=. f cur }
    ensures { (hasn m w h cur k -> cl (nbr m w cur k) <> 0) -> pf_nb m w h z f cl done_ cur (k+1) }
  = assert { forall c n. cellok w h c -> done_ c -> hasn m w h c n -> c = cur -> n < k+1 -> n < k \/ n = k };
    assert { cellok w h cur -> done_ cur -> hasn m w h cur k -> cl (nbr m w cur k) <> 0 -> not (edge w h (nbr m w cur k)) -> f (nbr m w cur k) <=. rmaxl (z (nbr m w cur k)) (f cur) }
  (* a cell ni, the k-th neighbour of cur, was closed at the elevation it drains at *)
  let lemma tree_add (m w h: int) (z f f2: int -> real) (cl cl2: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt cur k: int) : unit
    requires { pf_tree m w h z f cl done_ rank par cnt /\ 0 <= cnt }
    requires { hasn m w h cur k /\ cellok w h cur /\ cl (nbr m w cur k) = 0 /\ done_ cur /\ cl cur <> 0 }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { same_but (nbr m w cur k) f f2 /\ same_but (nbr m w cur k) cl cl2 }
    requires { cl2 (nbr m w cur k) <> 0 /\ f2 (nbr m w cur k) = rmaxl (z (nbr m w cur k)) (f cur) }
    ensures { pf_tree m w h z f2 cl2 done_ (Map.set rank (nbr m w cur k) cnt) (Map.set par (nbr m w cur k) cur) (cnt+1) }
  = ()
  let lemma nb_add (m w h: int) (z f f2: int -> real) (cl cl2: int -> int) (done_: int -> bool) (cur k: int) : unit
    requires { pf_nb m w h z f cl done_ cur k }
    requires { hasn m w h cur k /\ cellok w h cur /\ cl (nbr m w cur k) = 0 /\ done_ cur /\ cl cur <> 0 }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { same_but (nbr m w cur k) f f2 /\ same_but (nbr m w cur k) cl cl2 }
    requires { cl2 (nbr m w cur k) <> 0 /\ f2 (nbr m w cur k) = rmaxl (z (nbr m w cur k)) (f cur) }
    ensures { pf_nb m w h z f2 cl2 done_ cur (k+1) }
  = assert { forall c n. cellok w h c -> done_ c -> hasn m w h c n -> (c = cur -> n < k) -> nbr m w c n <> nbr m w cur k };
    assert { forall c n. cellok w h c -> done_ c -> hasn m w h c n -> c = cur -> n < k+1 -> n < k \/ n = k }

  let lemma pf_pop (w h: int) (z f: int -> real) (cl: int -> int) (st st2: pqs) (done_: int -> bool) (c: gcz) : unit
    requires { pf_state w h z f cl st done_ /\ popped st st2 c }
    ensures { pf_state w h z f cl st2 (Map.set done_ (idx w c.zx c.zy) true) }
    ensures { ing w h c.zx c.zy /\ f (idx w c.zx c.zy) = c.zz /\ cl (idx w c.zx c.zy) <> 0 }
    ensures { forall q. mem q st2 -> c.zz <=. q.zz }
    ensures { forall d. cellok w h d -> Map.get (Map.set done_ (idx w c.zx c.zy) true) d -> f d <=. c.zz }
  = assert { forall q. mem q st -> c.zz <=. q.zz };
    assert { forall d. mem (qe w f d) st -> 0 < w -> d = idx w c.zx c.zy \/ mem (qe w f d) st2 }
  let lemma pf_add (w h: int) (z f f2: int -> real) (cl cl2: int -> int) (st st2: pqs) (done_: int -> bool) (ni: int) : unit
    requires { pf_state w h z f cl st done_ }
    requires { cellok w h ni /\ cl ni = 0 /\ cl2 ni <> 0 /\ same_but ni f f2 /\ same_but ni cl cl2 /\ 0 < w /\ 0 <= h }
    requires { pushed st st2 (qe w f2 ni) }
    requires { forall d. cellok w h d -> done_ d -> f d <=. f2 ni }
    ensures { pf_state w h z f2 cl2 st2 done_ }
  = assert { forall d. cellok w h d -> d <> ni -> qe w f2 d = qe w f d }

  constant no_cell : int -> bool = fun _ -> false
  constant zero_rank : int -> int = fun _ -> 0

  (* every cell is reached: by induction along a row *)
  let rec lemma reach (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (c: int) : unit
    requires { m = 8 \/ m = 4 }
    requires { 1 <= w /\ 1 <= h }
    requires { cellok w h c }
    requires { pf_nb m w h z f cl done_ (-1) 0 }
    requires { forall c. cellok w h c -> cl c <> 0 -> done_ c }
    requires { forall c. cellok w h c -> edge w h c -> cl c <> 0 }
    variant { if ix w c >= 0 then ix w c else 0 }
    ensures { cl c <> 0 }
  = if pure { edge w h c } then ()
    else begin
      let ghost d = pure { idx w (ix w c - 1) (iy w c) } in
      let ghost n = if m = 8 then 5 else 3 in
      assert { ix w d = ix w c - 1 /\ iy w d = iy w c };
      reach m w h z f cl done_ d;
      assert { hasn m w h d n };
      assert { nbr m w d n = c }
    end
  let lemma pf_witness (m w h: int) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt: int) : unit
    requires { m = 8 \/ m = 4 }
    requires { 1 <= w /\ 1 <= h }
    requires { pf_nb m w h z f cl done_ (-1) 0 }
    requires { pf_tree m w h z f cl done_ rank par cnt }
    requires { forall c. cellok w h c -> cl c <> 0 -> done_ c }
    requires { forall c. cellok w h c -> done_ c -> cl c <> 0 }
    requires { forall c. cellok w h c -> edge w h c -> cl c <> 0 /\ f c = z c }
    ensures { witness m w h z f rank par }
    ensures { is_fill m w h z f }
    ensures { forall c. cellok w h c -> cl c <> 0 }
  = assert { forall c. cellok w h c -> cl c <> 0 by (cellok w h c) };
    assert { forall c n. cellok w h c -> hasn m w h c n -> cellok w h (nbr m w c n) }
  (* ---- has_depressions *)
  predicate raised (w h: int) (z f: int -> real) = exists c. cellok w h c /\ f c <> z c
  (* while nothing has been raised, a cell not yet closed lies at or above the level l of the frontier in every filled surface *)
  predicate frontier (w h: int) (z: int -> real) (cl: int -> int) (done_: int -> bool) (cur: int) (l: real) =
    (forall c. cellok w h c -> edge w h c -> cl c <> 0) /\
    (forall c. cellok w h c -> cl c <> 0 -> not (done_ c) \/ c = cur -> z c >=. l)
  let rec lemma level_below (m w h: int) (z f: int -> real) (rank par: int -> int) (cl: int -> int) (done_: int -> bool) (cur k: int) (l: real) (u: int) : unit
    requires { witness m w h z f rank par }
    requires { pf_nb m w h z z cl done_ cur k }
    requires { frontier w h z cl done_ cur l }
    requires { cellok w h u /\ cl u = 0 }
    variant { if rank u >= 0 then rank u else 0 }
    ensures { f u >=. l }
  = let p = par u in
    assert { f u = rmaxl (z u) (f p) };
    if pure { cl p = 0 } then level_below m w h z f rank par cl done_ cur k l p
    else begin
      assert { not (done_ p) \/ p = cur };
      if pure { edge w h p } then () else assert { f p >=. z p }
    end
  let lemma found_depression (m w h: int) (z: int -> real) (cl: int -> int) (st: pqs) (done_: int -> bool) (cur k: int) (l: real) (u: int) : unit
    requires { pf_nb m w h z z cl done_ cur k }
    requires { pf_state w h z z cl st done_ }
    requires { forall q. mem q st -> l <=. q.zz }
    requires { z cur = l }
    requires { cellok w h u /\ cl u = 0 /\ z u <. l }
    ensures { forall f. is_fill m w h z f -> raised w h z f }
  = assert { forall c. cellok w h c -> cl c <> 0 -> not (done_ c) -> mem (qe w z c) st };
    assert { forall c. mem (qe w z c) st -> l <=. z c };
    assert { frontier w h z cl done_ cur l };
    assert { forall f rank par. witness m w h z f rank par -> f u >=. l }
  let lemma no_depression (m w h: int) (z: int -> real) : unit
    requires { is_fill m w h z z }
    ensures { forall f. is_fill m w h z f -> not (raised w h z f) }
  = ()
  (* ---- pit_mask *)
  predicate mask_ok (w h: int) (z f: int -> real) (nd: real) (cl: int -> int) (done_: int -> bool) (mask: int -> int) =
    (forall c [mask c]. cellok w h c -> cl c = 0 -> mask c = 0) /\
    (forall c [mask c]. cellok w h c -> cl c <> 0 -> (done_ c /\ z c = nd -> mask c = 3) /\
       (not (done_ c /\ z c = nd) -> mask c = if z c <. f c then 1 else 0))
  predicate is_mask (w h: int) (z f: int -> real) (nd: real) (mask: int -> int) =
    forall c. cellok w h c -> mask c = if z c = nd then 3 else if z c <. f c then 1 else 0
  let lemma mask_final (m w h: int) (z f: int -> real) (nd: real) (cl: int -> int) (done_: int -> bool) (mask: int -> int) : unit
    requires { mask_ok w h z f nd cl done_ mask }
    requires { forall c. cellok w h c -> cl c <> 0 /\ done_ c }
    requires { is_fill m w h z f }
    ensures { forall g. is_fill m w h z g -> is_mask w h z g nd mask }
  = ()
end

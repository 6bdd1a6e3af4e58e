(* Work-list traversals seeded on the raster edge: a priority queue and a FIFO of cells, every cell closed once, each with the cell that closed it *)
module WL
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  use export pf.PF

  predicate pit_in (w h: int) (f: int -> real) (cl: int -> int) (pq: int -> gcz) (hd tl: int) =
    forall k [pq k]. hd <= k < tl -> ing w h (pq k).zx (pq k).zy /\ (pq k).zz = f (idx w (pq k).zx (pq k).zy) /\ cl (idx w (pq k).zx (pq k).zy) <> 0
  predicate wl_state (w h: int) (f: int -> real) (cl: int -> int) (st: pqs) (pq: int -> gcz) (hd tl: int) (done_: int -> bool) =
    q_ok w h f cl st /\ pit_in w h f cl pq hd tl /\
    (forall c [cl c]. cellok w h c -> cl c <> 0 -> done_ c \/ mem (qe w f c) st \/ inpit w f c pq hd tl) /\
    (forall c [cl c]. cellok w h c -> edge w h c -> cl c <> 0) /\
    (forall c [done_ c]. cellok w h c -> done_ c -> cl c <> 0)
  let lemma wl_pop (w h: int) (f: int -> real) (cl: int -> int) (st st2: pqs) (pq: int -> gcz) (hd hd2 tl: int) (done_: int -> bool) (c: gcz) : unit
    requires { wl_state w h f cl st pq hd tl done_ }
    requires { (hd < tl /\ hd2 = hd + 1 /\ c = pq hd /\ st2 = st) \/ (hd2 = hd /\ popped st st2 c) }
    ensures { wl_state w h f cl st2 pq hd2 tl (Map.set done_ (idx w c.zx c.zy) true) }
    ensures { ing w h c.zx c.zy /\ f (idx w c.zx c.zy) = c.zz /\ cl (idx w c.zx c.zy) <> 0 }
  = if hd2 = hd + 1 then begin
      assert { forall d. inpit w f d pq hd tl -> d = idx w c.zx c.zy \/ inpit w f d pq hd2 tl }
    end else begin
      assert { forall d. mem (qe w f d) st -> 0 < w -> d = idx w c.zx c.zy \/ mem (qe w f d) st2 }
    end
  let lemma wl_add (w h: int) (f f2: int -> real) (cl cl2: int -> int) (st st2: pqs) (pq pq2: int -> gcz) (hd tl tl2: int) (done_: int -> bool) (ni: int) : unit
    requires { wl_state w h f cl st pq hd tl done_ /\ hd <= tl }
    requires { cellok w h ni /\ cl ni = 0 /\ cl2 ni <> 0 /\ same_but ni f f2 /\ same_but ni cl cl2 /\ 0 < w /\ 0 <= h }
    requires { (tl2 = tl + 1 /\ pq2 = Map.set pq tl (qe w f2 ni) /\ st2 = st) \/ (tl2 = tl /\ pq2 = pq /\ pushed st st2 (qe w f2 ni)) }
    ensures { wl_state w h f2 cl2 st2 pq2 hd tl2 done_ }
  = assert { forall d. cellok w h d -> d <> ni -> qe w f2 d = qe w f d };
    assert { forall d. cellok w h d -> d <> ni -> inpit w f d pq hd tl -> inpit w f2 d pq2 hd tl2 };
    assert { tl2 = tl + 1 -> inpit w f2 ni pq2 hd tl2 }

  (* neighbours of finished cells are closed; cell cur only for neighbours below k *)
  predicate cov (m w h: int) (cl: int -> int) (done_: int -> bool) (cur k: int) =
    forall c n [hasn m w h c n, done_ c]. cellok w h c -> done_ c -> hasn m w h c n -> (c = cur -> n < k) -> cl (nbr m w c n) <> 0
  let lemma cov_start (m w h: int) (cl: int -> int) (done_: int -> bool) (ci: int) : unit
    requires { cov m w h cl done_ (-1) 0 }
    ensures { cov m w h cl (Map.set done_ ci true) ci 1 }
  = ()
  let lemma cov_end (m w h: int) (cl: int -> int) (done_: int -> bool) (ci k: int) : unit
    requires { cov m w h cl done_ ci k /\ m < k }
    ensures { cov m w h cl done_ (-1) 0 }
  = ()
  let lemma cov_skip (m w h: int) (cl: int -> int) (done_: int -> bool) (cur k: int) : unit
    requires { cov m w h cl done_ cur k }
    ensures { (hasn m w h cur k -> cl (nbr m w cur k) <> 0) -> cov m w h cl done_ cur (k+1) }
  = assert { forall c n. cellok w h c -> done_ c -> hasn m w h c n -> c = cur -> n < k+1 -> n < k \/ n = k }
  let lemma cov_add (m w h: int) (cl cl2: int -> int) (done_: int -> bool) (cur k: int) : unit
    requires { cov m w h cl done_ cur k /\ same_but (nbr m w cur k) cl cl2 /\ cl2 (nbr m w cur k) <> 0 }
    ensures { cov m w h cl2 done_ cur (k+1) }
  = assert { forall c n. cellok w h c -> done_ c -> hasn m w h c n -> c = cur -> n < k+1 -> n < k \/ n = k }
  let rec lemma reach_all (m w h: int) (cl: int -> int) (done_: int -> bool) (c: int) : unit
    requires { m = 8 \/ m = 4 }
    requires { 1 <= w /\ 1 <= h }
    requires { cellok w h c }
    requires { cov m w h cl done_ (-1) 0 }
    requires { forall c. cellok w h c -> cl c <> 0 -> done_ c }
    requires { forall c. cellok w h c -> edge w h c -> cl c <> 0 }
    variant { if ix w c >= 0 then ix w c else 0 }
    ensures { cl c <> 0 }
  = if pure { edge w h c } then ()
    else begin
      let ghost d = pure { idx w (ix w c - 1) (iy w c) } in
      let ghost n = if m = 8 then 5 else 3 in
      assert { ix w d = ix w c - 1 /\ iy w d = iy w c };
      reach_all m w h cl done_ d;
      assert { hasn m w h d n };
      assert { nbr m w d n = c }
    end
  predicate all_closed (w h: int) (cl: int -> int) (done_: int -> bool) = forall c [cl c|done_ c]. cellok w h c -> cl c <> 0 /\ done_ c
  let lemma wl_end (m w h: int) (f: int -> real) (cl: int -> int) (st: pqs) (pq: int -> gcz) (hd tl: int) (done_: int -> bool) : unit
    requires { (m = 8 \/ m = 4) /\ 1 <= w /\ 1 <= h }
    requires { wl_state w h f cl st pq hd tl done_ /\ size st <= 0 /\ tl <= hd }
    requires { cov m w h cl done_ (-1) 0 }
    ensures { all_closed w h cl done_ }
  = assert { forall c. cellok w h c -> cl c <> 0 -> done_ c };
    assert { forall c. cellok w h c -> cl c <> 0 by (cellok w h c) }

  predicate adj (m w h p c: int) = cellok w h p /\ (exists n. hasn m w h p n /\ nbr m w p n = c)
  (* every closed interior cell was closed by a finished neighbour of smaller rank *)
  predicate tree (m w h: int) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt: int) =
    0 <= cnt /\
    (forall c [cl c|rank c]. cellok w h c -> cl c <> 0 -> 0 <= rank c < cnt) /\
    (forall c [cl c|par c]. cellok w h c -> cl c <> 0 -> not (edge w h c) -> adj m w h (par c) c /\ done_ (par c) /\ rank (par c) < rank c)
  let lemma tree_grow (m w h: int) (cl cl2: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt cur k: int) : unit
    requires { tree m w h cl done_ rank par cnt }
    requires { hasn m w h cur k /\ cellok w h cur /\ cl (nbr m w cur k) = 0 /\ done_ cur /\ cl cur <> 0 }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { same_but (nbr m w cur k) cl cl2 /\ cl2 (nbr m w cur k) <> 0 }
    ensures { tree m w h cl2 done_ (Map.set rank (nbr m w cur k) cnt) (Map.set par (nbr m w cur k) cur) (cnt+1) }
  = ()
  predicate forest (m w h: int) (rank par: int -> int) =
    forall c [par c]. cellok w h c -> not (edge w h c) -> adj m w h (par c) c /\ 0 <= rank (par c) < rank c

  (* ---- epsilon filling *)
  predicate eps_cell (nd: real) (z f: int -> real) (c p: int) =
    (z c = nd -> f c = z c) /\
    (z c <> nd -> f p <. f c /\ z c <=. f c /\ (f c <> z c -> f c = nextl (f p) infl))
  predicate eps_part (w h: int) (nd: real) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (par: int -> int) =
    (forall c [cl c|par c]. cellok w h c -> cl c <> 0 -> not (edge w h c) -> cellok w h (par c) /\ done_ (par c) /\ eps_cell nd z f c (par c)) /\
    (forall c [cl c|f c]. cellok w h c -> cl c = 0 -> f c = z c) /\
    (forall c [f c]. cellok w h c -> edge w h c -> f c = z c) /\
    (forall c [f c]. cellok w h c -> f c <. infl)
  let lemma eps_grow (w h: int) (nd: real) (z f f2: int -> real) (cl cl2: int -> int) (done_: int -> bool) (par: int -> int) (cur ni: int) : unit
    requires { eps_part w h nd z f cl done_ par }
    requires { cellok w h ni /\ cellok w h cur /\ cl ni = 0 /\ not (edge w h ni) /\ done_ cur /\ cl cur <> 0 }
    requires { forall d. cellok w h d -> done_ d -> cl d <> 0 }
    requires { same_but ni f f2 /\ same_but ni cl cl2 /\ cl2 ni <> 0 }
    requires { f2 ni = if z ni = nd then nd else if z ni <=. nextl (f cur) infl then nextl (f cur) infl else z ni }
    ensures { eps_part w h nd z f2 cl2 done_ (Map.set par ni cur) }
  = ()
  predicate is_eps (m w h: int) (nd: real) (z f: int -> real) =
    (forall c. cellok w h c -> edge w h c -> f c = z c) /\
    (exists rank par. forest m w h rank par /\ (forall c. cellok w h c -> not (edge w h c) -> eps_cell nd z f c (par c)))
  let lemma eps_final (m w h: int) (nd: real) (z f: int -> real) (cl: int -> int) (done_: int -> bool) (rank par: int -> int) (cnt: int) : unit
    requires { tree m w h cl done_ rank par cnt /\ eps_part w h nd z f cl done_ par }
    requires { all_closed w h cl done_ }
    ensures { is_eps m w h nd z f }
  = assert { forest m w h rank par }
end

(* Bucket filling: the cells reachable from seeds through cells of a value; the list of seeds is the traversal's stack *)
module BUCKET
  use int.Int
  use map.Map
  use rdbase.Base
  use pf.PF
  function stkset (e: int -> int) (l: int) : int -> bool = fun c -> if (exists k. 0 <= k < l /\ e k = c) then true else false
  let ghost stk_top (e: int -> int) (l: int) : unit requires { 0 < l }
    ensures { forall d. stkset e l d <-> (d = e (l-1) \/ stkset e (l-1) d) } = ()
  let ghost stk_push (e: int -> int) (l v: int) : unit requires { 0 <= l }
    ensures { forall d. stkset (Map.set e l v) (l+1) d <-> (d = v \/ stkset e l d) }
  = assert { forall d k. 0 <= k < l -> e k = d -> (Map.set e l v) k = d }
  predicate bok (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (c: int) = chk c = cv /\ s0 c <> sv
  (* cells connected to a seed through cells that hold the checked value and not yet the set value *)
  predicate step (m w h c d: int) = exists n. hasn m w h c n /\ nbr m w c n = d
  predicate bfpath (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (p: int -> int) (k: int) =
    0 <= k /\ cellok w h (p 0) /\ seed (p 0) /\ (forall i [p i]. 0 <= i <= k -> bok chk cv s0 sv (p i)) /\ (forall i [p (i+1)]. 0 <= i < k -> step m w h (p i) (p (i+1)))
  predicate bf (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (c: int) = exists p k. bfpath m w h chk cv s0 sv seed p k /\ p k = c
  let ghost bf_seed (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (c: int) : unit requires { cellok w h c } requires { seed c } requires { bok chk cv s0 sv c } ensures { bf m w h chk cv s0 sv seed c }
  = let ghost p = pure { fun (_: int) -> c } in assert { bfpath m w h chk cv s0 sv seed p 0 /\ p 0 = c }
  let ghost bf_nbr (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (c n: int) : unit requires { bf m w h chk cv s0 sv seed c } requires { hasn m w h c n } requires { bok chk cv s0 sv (nbr m w c n) }
    ensures { bf m w h chk cv s0 sv seed (nbr m w c n) }
  = let ghost k = any (k: int) ensures { exists p. bfpath m w h chk cv s0 sv seed p k /\ p k = c } in
    let ghost p = any (p: int -> int) ensures { bfpath m w h chk cv s0 sv seed p k /\ p k = c } in
    let ghost q = pure { Map.set p (k+1) (nbr m w c n) } in
    assert { forall i. 0 <= i <= k -> q i = p i };
    assert { forall i. 0 <= i < k -> step m w h (p i) (p (i+1)) };
    assert { forall i. 0 <= i < k -> q (i+1) = p (i+1) /\ q i = p i };
    assert { forall i. 0 <= i < k -> step m w h (q i) (q (i+1)) };
    assert { step m w h (q k) (q (k+1)) };
    assert { bfpath m w h chk cv s0 sv seed q (k+1) }
  predicate in_dom (w h: int) (seed: int -> bool) = forall c [seed c]. seed c -> cellok w h c
  predicate bf_stack (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (e: int -> int) (l: int) =
    0 <= l /\ forall k [e k]. 0 <= k < l -> cellok w h (e k) /\ (seed (e k) \/ bf m w h chk cv s0 sv seed (e k))
  predicate bf_sound (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) =
    forall c [s c]. cellok w h c -> s c = s0 c \/ (s c = sv /\ bf m w h chk cv s0 sv seed c)
  predicate bf_seeds (w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed stk: int -> bool) =
    forall c [seed c]. cellok w h c -> seed c -> bok chk cv s0 sv c -> s c = sv \/ stk c
  predicate bf_cov (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (stk: int -> bool) (cur kk: int) =
    forall c n [hasn m w h c n]. cellok w h c -> bok chk cv s0 sv c -> s c = sv -> hasn m w h c n -> bok chk cv s0 sv (nbr m w c n) -> (c = cur -> n < kk) -> s (nbr m w c n) = sv \/ stk (nbr m w c n)
  predicate bf_state (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l: int) (cur kk: int) =
    bf_stack m w h chk cv s0 sv seed e l /\ bf_sound m w h chk cv s0 sv s seed /\ bf_seeds w h chk cv s0 sv s seed (stkset e l) /\ bf_cov m w h chk cv s0 sv s (stkset e l) cur kk
  let ghost bf_start (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (e: int -> int) (l: int) : unit
    requires { 0 <= l } requires { in_dom w h (stkset e l) }
    ensures { bf_state m w h chk cv s0 sv s0 (stkset e l) e l (-1) 0 }
  = assert { forall k. 0 <= k < l -> stkset e l (e k) }
  predicate popped_state (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l: int) =
    bf_stack m w h chk cv s0 sv seed e (l-1) /\ bf_sound m w h chk cv s0 sv s seed /\
    cellok w h (e (l-1)) /\ (seed (e (l-1)) \/ bf m w h chk cv s0 sv seed (e (l-1))) /\
    (forall c [seed c]. cellok w h c -> seed c -> bok chk cv s0 sv c -> c <> e (l-1) -> s c = sv \/ stkset e (l-1) c) /\
    (forall c n [hasn m w h c n]. cellok w h c -> bok chk cv s0 sv c -> s c = sv -> hasn m w h c n -> bok chk cv s0 sv (nbr m w c n) -> nbr m w c n <> e (l-1) -> s (nbr m w c n) = sv \/ stkset e (l-1) (nbr m w c n))
  let ghost bf_pop (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l: int) : unit
    requires { 0 < l } requires { bf_state m w h chk cv s0 sv s seed e l (-1) 0 }
    ensures { popped_state m w h chk cv s0 sv s seed e l }
    ensures { not (chk (e (l-1)) = cv) || s (e (l-1)) = sv -> bf_state m w h chk cv s0 sv s seed e (l-1) (-1) 0 }
  = stk_top e l
  let ghost bf_fill (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s s2: int -> int) (seed: int -> bool) (e: int -> int) (l c: int) : unit
    requires { 0 <= l } requires { popped_state m w h chk cv s0 sv s seed e (l+1) } requires { c = e l } requires { chk c = cv /\ s c <> sv }
    requires { s2 = Map.set s c sv }
    ensures { bf_state m w h chk cv s0 sv s2 seed e l c 1 } ensures { bok chk cv s0 sv c } ensures { bf m w h chk cv s0 sv seed c }
  = assert { bok chk cv s0 sv c }; if pure { seed c } then bf_seed m w h chk cv s0 sv seed c; assert { bf m w h chk cv s0 sv seed c }
  let ghost bf_skip (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l c n: int) : unit
    requires { bf_state m w h chk cv s0 sv s seed e l c n }
    ensures { (hasn m w h c n -> chk (nbr m w c n) = cv -> s (nbr m w c n) = sv) -> bf_state m w h chk cv s0 sv s seed e l c (n+1) }
  = ()
  let ghost bf_next (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l: int) (e2: int -> int) (l2 c n: int) : unit
    requires { bf_state m w h chk cv s0 sv s seed e l c n } requires { cellok w h c /\ hasn m w h c n } requires { bok chk cv s0 sv c } requires { s c = sv } requires { bf m w h chk cv s0 sv seed c }
    requires { if chk (nbr m w c n) = cv && s (nbr m w c n) <> sv then l2 = l + 1 /\ e2 = Map.set e l (nbr m w c n) else l2 = l /\ e2 = e }
    ensures { bf_state m w h chk cv s0 sv s seed e2 l2 c (n+1) }
  = if pure { chk (nbr m w c n) = cv && s (nbr m w c n) <> sv } then begin
      stk_push e l (nbr m w c n);
      assert { bok chk cv s0 sv (nbr m w c n) };
      assert { bf m w h chk cv s0 sv seed c };
      bf_nbr m w h chk cv s0 sv seed c n;
      assert { bf m w h chk cv s0 sv seed (nbr m w c n) };
      assert { bf_stack m w h chk cv s0 sv seed e2 l2 };
      assert { bf_seeds w h chk cv s0 sv s seed (stkset e2 l2) }
    end
  let ghost bf_end (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l c: int) : unit
    requires { bf_state m w h chk cv s0 sv s seed e l c (m+1) }
    ensures { bf_state m w h chk cv s0 sv s seed e l (-1) 0 } = ()
  predicate bf_done (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) =
    forall c [s c]. cellok w h c -> if bf m w h chk cv s0 sv seed c then s c = sv else s c = s0 c
  predicate bf_closed (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) =
    (forall c [seed c]. cellok w h c -> seed c -> bok chk cv s0 sv c -> s c = sv) /\
    (forall c n [hasn m w h c n]. cellok w h c -> bok chk cv s0 sv c -> s c = sv -> hasn m w h c n -> bok chk cv s0 sv (nbr m w c n) -> s (nbr m w c n) = sv)
  let rec ghost bf_ind (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (seed: int -> bool) (s: int -> int) (p: int -> int) (k: int) : unit
    requires { 0 < w /\ 0 <= h } requires { bfpath m w h chk cv s0 sv seed p k } requires { bf_closed m w h chk cv s0 sv s seed }
    variant { k } ensures { cellok w h (p k) } ensures { s (p k) = sv }
  = if k > 0 then begin
      bf_ind m w h chk cv s0 sv seed s p (k-1);
      assert { step m w h (p (k-1)) (p ((k-1)+1)) };
      let ghost n = any (n: int) ensures { hasn m w h (p (k-1)) n /\ nbr m w (p (k-1)) n = p k } in
      assert { bok chk cv s0 sv (p (k-1)) /\ bok chk cv s0 sv (nbr m w (p (k-1)) n) }
    end
  let ghost bf_final (m w h: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) (seed: int -> bool) (e: int -> int) (l: int) : unit
    requires { 0 < w /\ 0 <= h } requires { l <= 0 } requires { bf_state m w h chk cv s0 sv s seed e l (-1) 0 }
    ensures { bf_done m w h chk cv s0 sv s seed }
  = assert { forall d. not stkset e l d };
    assert { bf_closed m w h chk cv s0 sv s seed };
    let lemma aux (c: int) : unit requires { bf m w h chk cv s0 sv seed c } ensures { s c = sv }
    = let ghost k = any (k: int) ensures { exists p. bfpath m w h chk cv s0 sv seed p k /\ p k = c } in
      let ghost p = any (p: int -> int) ensures { bfpath m w h chk cv s0 sv seed p k /\ p k = c } in
      bf_ind m w h chk cv s0 sv seed s p k in ()
  (* ---- seeding from the edges *)
  function edgeset (w h: int) : int -> bool = fun c -> if (cellok w h c /\ edge w h c) then true else false
  predicate es_y (w h: int) (e: int -> int) (l y: int) =
    0 <= l /\ (forall k [e k]. 0 <= k < l -> edgeset w h (e k)) /\ (forall j. 0 <= j < y -> stkset e l (idx w 0 j) /\ stkset e l (idx w (w-1) j))
  predicate es_x (w h: int) (e: int -> int) (l x: int) = forall i. 0 <= i < x -> stkset e l (idx w i 0) /\ stkset e l (idx w i (h-1))
  let ghost es_ystep (w h: int) (e0: int -> int) (l: int) (e: int -> int) (y: int) : unit
    requires { 0 < w /\ 0 <= y < h } requires { es_y w h e0 l y } requires { e = Map.set (Map.set e0 l (idx w 0 y)) (l+1) (idx w (w-1) y) }
    ensures { es_y w h e (l+2) (y+1) }
  = stk_push e0 l (idx w 0 y); stk_push (Map.set e0 l (idx w 0 y)) (l+1) (idx w (w-1) y);
    assert { edgeset w h (idx w 0 y) }; assert { edgeset w h (idx w (w-1) y) }
  let ghost es_xstep (w h: int) (e0: int -> int) (l: int) (e: int -> int) (x: int) : unit
    requires { 0 < h /\ 0 <= x < w } requires { es_y w h e0 l h /\ es_x w h e0 l x } requires { e = Map.set (Map.set e0 l (idx w x 0)) (l+1) (idx w x (h-1)) }
    ensures { es_y w h e (l+2) h /\ es_x w h e (l+2) (x+1) }
  = stk_push e0 l (idx w x 0); stk_push (Map.set e0 l (idx w x 0)) (l+1) (idx w x (h-1));
    assert { edgeset w h (idx w x 0) }; assert { edgeset w h (idx w x (h-1)) }
  let ghost es_final (w h: int) (e: int -> int) (l: int) : unit
    requires { 0 < w /\ 0 < h } requires { es_y w h e l h /\ es_x w h e l w }
    ensures { forall c. stkset e l c <-> edgeset w h c }
    ensures { in_dom w h (stkset e l) }
    ensures { forall m chk cv s0 sv s [bf_done m w h chk cv s0 sv s (stkset e l)]. bf_done m w h chk cv s0 sv s (stkset e l) -> bf_done m w h chk cv s0 sv s (edgeset w h) }
  = assert { forall c. edgeset w h c -> (ix w c = 0 \/ ix w c = w-1 \/ iy w c = 0 \/ iy w c = h-1) && idx w (ix w c) (iy w c) = c && stkset e l c };
    let aux (m: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) : unit ensures { forall c. bf m w h chk cv s0 sv (stkset e l) c <-> bf m w h chk cv s0 sv (edgeset w h) c }
    = assert { forall p k. bfpath m w h chk cv s0 sv (stkset e l) p k <-> bfpath m w h chk cv s0 sv (edgeset w h) p k } in
    let lemma aux2 (m: int) (chk: int -> int) (cv: int) (s0: int -> int) (sv: int) (s: int -> int) : unit requires { bf_done m w h chk cv s0 sv s (stkset e l) } ensures { bf_done m w h chk cv s0 sv s (edgeset w h) }
    = aux m chk cv s0 sv in ()
end
(* Sums over cells in row order *)
module PERIM
  use int.Int
  use real.RealInfix
  use rdbase.Base
  constant cell_dx : real
  constant cell_dy : real
  let rec ghost function sumto (g: int -> int) (n: int) : int
    variant { n } = if n <= 0 then 0 else sumto g (n-1) + g (n-1)
  predicate outside (w h: int) (z: int -> real) (nd: real) (x y n: int) =
    not ing w h (x + d8x n) (y + d8y n) \/ z (idx w (x + d8x n) (y + d8y n)) = nd
  function side (w h: int) (z: int -> real) (nd: real) (x y n: int) : int = if outside w h z nd x y n then 1 else 0
  (* sides p and q of a cell, as far as they come before n *)
  function sides (w h: int) (z: int -> real) (nd: real) (x y p q n: int) : int =
    (if p < n then side w h z nd x y p else 0) + (if q < n then side w h z nd x y q else 0)
  predicate borders (w h: int) (z: int -> real) (nd: real) (x y: int) = exists n. 1 <= n <= 8 /\ outside w h z nd x y n
  function border_cell (w h: int) (z: int -> real) (nd: real) : int -> int = fun c -> if z c <> nd /\ borders w h z nd (ix w c) (iy w c) then 1 else 0
  function left_right (w h: int) (z: int -> real) (nd: real) : int -> int = fun c -> if z c <> nd then sides w h z nd (ix w c) (iy w c) 1 5 9 else 0
  function up_down (w h: int) (z: int -> real) (nd: real) : int -> int = fun c -> if z c <> nd then sides w h z nd (ix w c) (iy w c) 3 7 9 else 0
  predicate per_sums (w h: int) (z: int -> real) (nd: real) (ty ce ve he k: int) =
    if ty = 0 then ce = sumto (border_cell w h z nd) k /\ 0 <= ce <= k else
    ve = sumto (left_right w h z nd) k /\ he = sumto (up_down w h z nd) k /\ 0 <= ve <= 2*k /\ 0 <= he <= 2*k
  let ghost row_start (w h y: int) : unit requires { 0 <= w /\ 0 <= y < h } ensures { idx w w y = idx w 0 (y+1) } ensures { idx w w y <= area w h }
  = use_idx w w y; use_idx w 0 (y+1); if w = 0 then (use_area w h; ()) else (use_idx w (w-1) y; assert { 0 <= idx w (w-1) y < area w h })
  let ghost per_ends (w h: int) : unit requires { 0 <= w /\ 0 <= h } ensures { idx w 0 0 = 0 } ensures { idx w 0 h = area w h } ensures { forall g. sumto g 0 = 0 }
  = use_idx w 0 0; use_idx w 0 h; use_area w h
  let ghost per_step (w h: int) (z: int -> real) (nd: real) (x y: int) : unit
    requires { ing w h x y }
    ensures { idx w (x+1) y = idx w x y + 1 } ensures { 0 <= idx w x y < area w h }
    ensures { forall n [outside w h z nd x y n]. 1 <= n <= 8 -> outside w h z nd x y n -> borders w h z nd x y }
    ensures { ix w (idx w x y) = x /\ iy w (idx w x y) = y }
    ensures { forall g [sumto g (idx w (x+1) y)]. sumto g (idx w (x+1) y) = sumto g (idx w x y) + g (idx w x y) }
  = use_idx w (x+1) y; use_idx w x y
end

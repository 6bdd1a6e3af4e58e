(* Flow accumulation: every cell hands its accumulation on once all the cells above it have *)
(* the product of a share and an accumulation; kept closed, because nonlinear arithmetic distracts the solvers *)
module Share
  use real.RealInfix
  function share (a b: real) : real
  axiom share_comm: forall a b. share a b = share b a
  val share (a b: real) : real ensures { result = share a b }
  val ghost use_share (a b: real) : unit ensures { share a b = a *. b }
end
module ShareProof
  use real.RealInfix
  function share (a b: real) : real = a *. b
  let ghost use_share (a b: real) : unit ensures { share a b = a *. b } = ()
  let share (a b: real) : real ensures { result = share a b } = a *. b
  clone Share with function share = share, lemma share_comm, val share = share, val use_share = use_share
end
module CountI
  use int.Int
  let rec ghost function occ (e: int -> int) (v: int) (n: int) : int
    requires { 0 <= n } variant { n } ensures { 0 <= result <= n }
  = if n = 0 then 0 else occ e v (n-1) + (if pure { e (n-1) = v } then 1 else 0)
  lemma occ_step: forall e v n. 0 <= n -> occ e v (n+1) = occ e v n + (if e n = v then 1 else 0)
end
module ACC
  use Share
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  type gridcell = { gx: int; gy: int }
  predicate cellok (w h c: int) = 0 <= c < area w h
  function nb (w c n: int) : int = idx w (ix w c + d8x n) (iy w c + d8y n)
  predicate has (w h c n: int) = 1 <= n <= 8 /\ ing w h (ix w c + d8x n) (iy w c + d8y n)
  lemma nb_inv: forall w h c n [nb w c n, has w h c n]. cellok w h c -> 0 < w -> 0 <= h -> has w h c n ->
    cellok w h (nb w c n) /\ has w h (nb w c n) (d8_inverse n) /\ nb w (nb w c n) (d8_inverse n) = c /\ nb w c n <> c /\ d8_inverse (d8_inverse n) = n
  lemma nb_inj: forall w h c n k [has w h c n, nb w c n, nb w c k]. cellok w h c -> 0 < w -> 0 <= h -> has w h c n -> has w h c k -> nb w c n = nb w c k -> n = k
  predicate shifts (v: vec int) (w h: int) =
    forall n x y [idx w (x + d8x n) (y + d8y n)]. 0 <= n <= 8 -> ing w h x y -> ing w h (x + d8x n) (y + d8y n) -> idx w (x + d8x n) (y + d8y n) = idx w x y + v.elts n
  let ghost shift_ok (v: vec int) (w h x y n: int) : unit
    requires { nshift_ok v w /\ ing w h x y /\ 0 <= n <= 8 /\ ing w h (x + d8x n) (y + d8y n) }
    ensures { idx w (x + d8x n) (y + d8y n) = idx w x y + v.elts n }
  = use_idx w x y; use_idx w (x + d8x n) (y + d8y n);
    assert { (y + d8y n) * w = y * w + d8y n * w };
    assert { v.elts n = d8y n * w + d8x n }
  let ghost nshift_shifts (v: vec int) (w h: int) : unit
    requires { nshift_ok v w }
    ensures { shifts v w h }
  = let lemma aux (n x y: int) : unit requires { 0 <= n <= 8 /\ ing w h x y /\ ing w h (x + d8x n) (y + d8y n) } ensures { idx w (x + d8x n) (y + d8y n) = idx w x y + v.elts n }
      = shift_ok v w h x y n in ()
  (* fl c n: cell c sends flow to its neighbour n; p: the share *)
  predicate flok (w h: int) (fl: int -> int -> bool) (dat: int -> bool) =
    forall c n [fl c n]. cellok w h c -> 1 <= n <= 8 -> fl c n -> has w h c n /\ dat c /\ dat (nb w c n)
  function pend1 (w h: int) (fl sent: int -> int -> bool) (c n: int) : int =
    if has w h c n && fl (nb w c n) (d8_inverse n) && not sent (nb w c n) (d8_inverse n) then 1 else 0
  function recv1 (w h: int) (fl sent: int -> int -> bool) (p: int -> int -> real) (acc: int -> real) (c n: int) : real =
    if has w h c n && fl (nb w c n) (d8_inverse n) && sent (nb w c n) (d8_inverse n) then share (p (nb w c n) (d8_inverse n)) (acc (nb w c n)) else 0.0
  function sum8i (f: int -> int) : int = f 1 + f 2 + f 3 + f 4 + f 5 + f 6 + f 7 + f 8
  function sum8r (f: int -> real) : real = f 1 +. f 2 +. f 3 +. f 4 +. f 5 +. f 6 +. f 7 +. f 8
  function pend (w h: int) (fl sent: int -> int -> bool) (c: int) : int = sum8i (pend1 w h fl sent c)
  function recv (w h: int) (fl sent: int -> int -> bool) (p: int -> int -> real) (acc: int -> real) (c: int) : real = sum8r (recv1 w h fl sent p acc c)
  lemma pend_rng: forall w h fl sent c [pend w h fl sent c]. 0 <= pend w h fl sent c <= 8
  let ghost sum8i_ext (f g: int -> int) : unit requires { forall n. 1 <= n <= 8 -> f n = g n } ensures { sum8i f = sum8i g } = ()
  let ghost sum8r_ext (f g: int -> real) : unit requires { forall n. 1 <= n <= 8 -> f n = g n } ensures { sum8r f = sum8r g } = ()
  predicate psame (w h: int) (fl s1 s2: int -> int -> bool) (c: int) = forall n [pend1 w h fl s1 c n|pend1 w h fl s2 c n]. 1 <= n <= 8 -> pend1 w h fl s1 c n = pend1 w h fl s2 c n
  lemma psame_eq: forall w h fl s1 s2 c [psame w h fl s1 s2 c]. psame w h fl s1 s2 c -> pend w h fl s1 c = pend w h fl s2 c
  predicate rsame (w h: int) (fl s1 s2: int -> int -> bool) (p: int -> int -> real) (a1 a2: int -> real) (c: int) =
    forall n [recv1 w h fl s1 p a1 c n|recv1 w h fl s2 p a2 c n]. 1 <= n <= 8 -> recv1 w h fl s1 p a1 c n = recv1 w h fl s2 p a2 c n
  lemma rsame_eq: forall w h fl s1 s2 p a1 a2 c [rsame w h fl s1 s2 p a1 a2 c]. rsame w h fl s1 s2 p a1 a2 c -> recv w h fl s1 p a1 c = recv w h fl s2 p a2 c
  predicate pzero (w h: int) (fl s1: int -> int -> bool) (c: int) = forall n [pend1 w h fl s1 c n]. 1 <= n <= 8 -> pend1 w h fl s1 c n = 0
  lemma pzero_eq: forall w h fl s1 c [pzero w h fl s1 c]. pzero w h fl s1 c -> pend w h fl s1 c = 0
  predicate rzero (w h: int) (fl s1: int -> int -> bool) (p: int -> int -> real) (a1: int -> real) (c: int) = forall n [recv1 w h fl s1 p a1 c n]. 1 <= n <= 8 -> recv1 w h fl s1 p a1 c n = 0.0
  lemma rzero_eq: forall w h fl s1 p a1 c [rzero w h fl s1 p a1 c]. rzero w h fl s1 p a1 c -> recv w h fl s1 p a1 c = 0.0
  let ghost sum8i_upd (f g: int -> int) (k: int) : unit
    requires { 1 <= k <= 8 } requires { forall n. 1 <= n <= 8 -> n <> k -> f n = g n }
    ensures { sum8i g = sum8i f + g k - f k } = ()
  let ghost sum8r_upd (f g: int -> real) (k: int) : unit
    requires { 1 <= k <= 8 } requires { forall n. 1 <= n <= 8 -> n <> k -> f n = g n }
    ensures { sum8r g = sum8r f +. g k -. f k } = ()
  let ghost pend_pos (w h: int) (fl sent: int -> int -> bool) (c n: int) : unit
    requires { has w h c n /\ fl (nb w c n) (d8_inverse n) /\ not sent (nb w c n) (d8_inverse n) }
    ensures { pend w h fl sent c >= 1 }
  = assert { pend1 w h fl sent c n = 1 }; assert { forall k. 0 <= pend1 w h fl sent c k }

  predicate upi (f f2: int -> int) (k v: int) = f2 k = v /\ forall j [f2 j|f j]. j <> k -> f2 j = f j
  predicate upr (f f2: int -> real) (k: int) (v: real) = f2 k = v /\ forall j [f2 j|f j]. j <> k -> f2 j = f j
  predicate sentup (s s2: int -> int -> bool) (c n: int) = s2 c n /\ forall d k [s2 d k|s d k]. not (d = c /\ k = n) -> (s2 d k <-> s d k)
  predicate other (w h t k0 ci n: int) = forall c k [nb w c k]. cellok w h c -> has w h c k -> c <> t \/ k <> k0 -> not (nb w c k = ci /\ d8_inverse k = n)
  let ghost other_i (w h ci n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n }
    ensures { other w h (nb w ci n) (d8_inverse n) ci n }
  = assert { forall c k. cellok w h c -> has w h c k -> nb w c k = ci -> d8_inverse k = n -> c = nb w ci n /\ k = d8_inverse n }
  let ghost pend_other (w h: int) (fl sent sent2: int -> int -> bool) (ci n c: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n }
    requires { cellok w h c /\ c <> nb w ci n } ensures { pend w h fl sent2 c = pend w h fl sent c }
  = other_i w h ci n;
    assert { forall k. 1 <= k <= 8 -> pend1 w h fl sent2 c k = pend1 w h fl sent c k };
    assert { psame w h fl sent2 sent c }
  let ghost pend_there (w h: int) (fl sent sent2: int -> int -> bool) (ci n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n } requires { fl ci n /\ not sent ci n }
    ensures { pend w h fl sent2 (nb w ci n) = pend w h fl sent (nb w ci n) - 1 }
  = let ghost t = pure { nb w ci n } in
    let ghost k0 = pure { d8_inverse n } in
    assert { has w h t k0 /\ nb w t k0 = ci /\ d8_inverse k0 = n /\ cellok w h t };
    assert { pend1 w h fl sent t k0 = 1 /\ pend1 w h fl sent2 t k0 = 0 };
    assert { forall k. 1 <= k <= 8 -> has w h t k -> k <> k0 -> not (nb w t k = ci /\ d8_inverse k = n) };
    assert { forall k. 1 <= k <= 8 -> k <> k0 -> pend1 w h fl sent t k = pend1 w h fl sent2 t k };
    sum8i_upd (pure { pend1 w h fl sent t }) (pure { pend1 w h fl sent2 t }) k0
  let ghost pend_all (w h: int) (fl sent sent2: int -> int -> bool) (ci n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n }
    ensures { forall c. cellok w h c -> c <> nb w ci n -> pend w h fl sent2 c = pend w h fl sent c }
  = let lemma aux (c: int) : unit requires { cellok w h c /\ c <> nb w ci n } ensures { pend w h fl sent2 c = pend w h fl sent c }
      = pend_other w h fl sent sent2 ci n c in
    ()
  (* ---- counting the cells above each cell *)
  function notbef (w x y n: int) : int -> int -> bool = fun s k -> not (iy w s < y \/ (iy w s = y /\ (ix w s < x \/ (ix w s = x /\ k < n))))
  predicate counted (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (nbf: int -> int -> bool) =
    forall c [deps c]. cellok w h c -> dat c -> deps c = pend w h fl nbf c
  function uncounted : int -> int -> bool = fun _ _ -> true
  function none_sent : int -> int -> bool = fun _ _ -> false
  function all_sent : int -> int -> bool = fun _ _ -> true
  predicate same_sent (w h: int) (fl s1 s2: int -> int -> bool) = forall s k [s1 s k|s2 s k]. cellok w h s -> 1 <= k <= 8 -> fl s k -> (s1 s k <-> s2 s k)
  let ghost counted_ext (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (s1 s2: int -> int -> bool) : unit
    requires { 0 < w /\ 0 <= h } requires { counted w h fl dat deps s1 } requires { same_sent w h fl s1 s2 }
    ensures { counted w h fl dat deps s2 }
  = assert { forall c. cellok w h c -> psame w h fl s1 s2 c }
  let ghost deps_rng (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (nbf: int -> int -> bool) (c: int) : unit
    requires { counted w h fl dat deps nbf /\ cellok w h c /\ dat c } ensures { 0 <= deps c <= 8 } = ()
  predicate zeros (w h: int) (deps: int -> int) = forall c [deps c]. cellok w h c -> deps c = 0
  (* in counting, "sent" means not yet counted *)
  function unbef (w x y n: int) : int -> int -> bool = fun s k -> notbef w x y n s k
  predicate cnt (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (x y n: int) = counted w h fl dat deps (unbef w x y n)
  let ghost cnt_start (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (x0 y0: int) : unit
    requires { 0 < w /\ 0 <= h /\ zeros w h deps }
    requires { forall s k. cellok w h s -> 1 <= k <= 8 -> fl s k -> y0 <= iy w s /\ x0 <= ix w s }
    ensures { cnt w h fl dat deps x0 y0 1 }
  = assert { forall c. cellok w h c -> pzero w h fl (unbef w x0 y0 1) c }
  (* the outgoing flow of the cells from x on in row y is none *)
  let ghost cnt_cell (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (x y n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cnt w h fl dat deps x y n }
    requires { n > 8 \/ forall k. n <= k <= 8 -> not fl (idx w x y) k }
    requires { ing w h x y }
    ensures { cnt w h fl dat deps (x+1) y 1 }
  = counted_ext w h fl dat deps (unbef w x y n) (unbef w (x+1) y 1)
  let ghost cnt_row (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (x x0 y: int) : unit
    requires { 0 < w /\ 0 <= h /\ cnt w h fl dat deps x y 1 }
    requires { forall s k. cellok w h s -> 1 <= k <= 8 -> fl s k -> ix w s >= x -> iy w s <> y }
    requires { forall s k. cellok w h s -> 1 <= k <= 8 -> fl s k -> ix w s >= x0 }
    ensures { cnt w h fl dat deps x0 (y+1) 1 }
  = counted_ext w h fl dat deps (unbef w x y 1) (unbef w x0 (y+1) 1)
  predicate bumped (deps deps2: int -> int) (k d: int) = deps2 = Map.set deps k d
  let ghost cnt_step (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps deps2: int -> int) (x y n: int) : unit
    requires { 0 < w /\ 0 <= h /\ flok w h fl dat /\ cnt w h fl dat deps x y n }
    requires { ing w h x y /\ 1 <= n <= 8 }
    requires { fl (idx w x y) n -> upi deps deps2 (nb w (idx w x y) n) (deps (nb w (idx w x y) n) + 1) }
    requires { not fl (idx w x y) n -> forall c. cellok w h c -> dat c -> deps2 c = deps c }
    ensures { cnt w h fl dat deps2 x y (n+1) }
  = let ghost ci = pure { idx w x y } in
    let ghost s1 = pure { unbef w x y n } in
    let ghost s2 = pure { unbef w x y (n+1) } in
    assert { ix w ci = x /\ iy w ci = y /\ cellok w h ci };
    assert { forall s k. cellok w h s -> 1 <= k <= 8 -> not (s = ci /\ k = n) -> (s1 s k <-> s2 s k) };
    assert { s1 ci n /\ not s2 ci n };
    if fl ci n then begin
      assert { has w h ci n };
      assert { sentup s2 s1 ci n };
      pend_there w h fl s2 s1 ci n;
      pend_all w h fl s2 s1 ci n;
      assert { forall c. cellok w h c -> c <> nb w ci n -> pend w h fl s1 c = pend w h fl s2 c };
      assert { cnt w h fl dat deps2 x y (n+1) }
    end else begin
      assert { same_sent w h fl s1 s2 };
      counted_ext w h fl dat deps s1 s2
    end
  let ghost cnt_end (w h: int) (fl: int -> int -> bool) (dat: int -> bool) (deps: int -> int) (x0 y: int) : unit
    requires { 0 < w /\ 0 <= h /\ cnt w h fl dat deps x0 y 1 }
    requires { forall s k. cellok w h s -> 1 <= k <= 8 -> fl s k -> iy w s < y }
    ensures { counted w h fl dat deps none_sent }
  = counted_ext w h fl dat deps (unbef w x0 y 1) none_sent

  (* ---- handing on *)
  predicate sums (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) (sent: int -> int -> bool) =
    forall c [acc c]. cellok w h c -> dat c -> acc c = own c +. recv w h fl sent p acc c
  predicate stok (w h: int) (dat: int -> bool) (deps: int -> int) (sent: int -> int -> bool) (st: int -> int) =
    (forall c n [sent c n]. cellok w h c -> 1 <= n <= 8 -> sent c n -> st c = 2) /\
    (forall c [st c]. cellok w h c -> dat c -> (st c = 0 <-> deps c > 0)) /\
    (forall c [st c]. cellok w h c -> not dat c -> st c = 0) /\
    (forall c [st c]. 0 <= st c <= 2)
  predicate accst (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) (deps: int -> int) (sent: int -> int -> bool) (st: int -> int) =
    flok w h fl dat /\ counted w h fl dat deps sent /\ sums w h fl p dat own acc sent /\ stok w h dat deps sent st
  (* what has been processed has been handed on, by cell cur only to the neighbours below k *)
  predicate handed (w h: int) (fl sent: int -> int -> bool) (st: int -> int) (cur k: int) =
    (forall c n [fl c n|sent c n]. cellok w h c -> st c = 2 -> 1 <= n <= 8 -> fl c n -> (c = cur -> n < k) -> sent c n) /\
    (forall n [sent cur n]. k <= n <= 8 -> not sent cur n)
  predicate accq (w h: int) (st: int -> int) (q: int -> int) (hd tl: int) =
    (forall k [q k]. hd <= k < tl -> cellok w h (q k) /\ st (q k) = 1) /\
    (forall i j [q i, q j]. hd <= i < j < tl -> q i <> q j) /\
    (forall c [st c]. cellok w h c -> st c = 1 -> exists k. hd <= k < tl /\ q k = c)
  function gq (w: int) (q: int -> gridcell) : int -> int = fun k -> idx w (q k).gx (q k).gy
  predicate gqok (w h: int) (q: int -> gridcell) (hd tl: int) = forall k [q k]. hd <= k < tl -> ing w h (q k).gx (q k).gy
  (* gathering the sources *)
  predicate srcs (w h: int) (dat: int -> bool) (deps: int -> int) (q: int -> int) (hd tl i: int) =
    (forall k [q k]. hd <= k < tl -> 0 <= q k < i /\ cellok w h (q k) /\ dat (q k) /\ deps (q k) = 0) /\
    (forall j k [q j, q k]. hd <= j < k < tl -> q j < q k) /\
    (forall c [deps c]. 0 <= c < i -> dat c -> deps c = 0 -> exists k. hd <= k < tl /\ q k = c)
  let ghost srcs_step (w h: int) (dat: int -> bool) (deps: int -> int) (q q2: int -> int) (hd tl tl2 i: int) : unit
    requires { srcs w h dat deps q hd tl i /\ cellok w h i /\ hd <= tl }
    requires { dat i /\ deps i = 0 -> tl2 = tl + 1 /\ q2 tl = i /\ forall k. k < tl -> q2 k = q k }
    requires { not (dat i /\ deps i = 0) -> tl2 = tl /\ q2 = q }
    ensures { srcs w h dat deps q2 hd tl2 (i+1) }
  = assert { forall c. 0 <= c < i -> dat c -> deps c = 0 -> exists k. hd <= k < tl2 /\ q2 k = c };
    assert { dat i /\ deps i = 0 -> exists k. hd <= k < tl2 /\ q2 k = i by q2 tl = i }
  function st0 (dat: int -> bool) (deps: int -> int) : int -> int = fun c -> if dat c && deps c = 0 then 1 else 0
  let ghost acc_start (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) (deps: int -> int) (q: int -> int) (hd tl: int) : unit
    requires { 0 < w /\ 0 <= h } requires { flok w h fl dat } requires { counted w h fl dat deps none_sent } requires { forall c. cellok w h c -> dat c -> acc c = own c }
    requires { srcs w h dat deps q hd tl (area w h) }
    ensures { accst w h fl p dat own acc deps none_sent (st0 dat deps) }
    ensures { accq w h (st0 dat deps) q hd tl }
    ensures { handed w h fl none_sent (st0 dat deps) (-1) 9 }
  = assert { forall c. cellok w h c -> rzero w h fl none_sent p acc c };
    assert { sums w h fl p dat own acc none_sent };
    assert { forall c. cellok w h c -> dat c -> (deps c > 0 <-> deps c <> 0) }
  let ghost acc_pop (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own own2 acc acc2: int -> real) (deps: int -> int) (sent: int -> int -> bool) (st st2: int -> int) (q: int -> int) (hd tl c: int) : unit
    requires { 0 < w /\ 0 <= h /\ accst w h fl p dat own acc deps sent st } requires { accq w h st q hd tl } requires { handed w h fl sent st (-1) 9 }
    requires { hd < tl /\ c = q hd /\ upi st st2 c 2 }
    requires { upr acc acc2 c (acc2 c) } requires { forall d. d <> c -> own2 d = own d } requires { acc2 c = acc c +. own2 c -. own c }
    ensures { cellok w h c /\ dat c /\ deps c = 0 }
    ensures { accst w h fl p dat own2 acc2 deps sent st2 } ensures { accq w h st2 q (hd+1) tl } ensures { handed w h fl sent st2 c 1 }
  = assert { cellok w h c /\ st c = 1 };
    assert { dat c };
    assert { deps c = 0 };
    assert { forall n. 1 <= n <= 8 -> not sent c n };
    assert { forall d n. cellok w h d -> 1 <= n <= 8 -> has w h d n -> nb w d n = c -> 1 <= d8_inverse n <= 8 };
    assert { forall d n. cellok w h d -> 1 <= n <= 8 -> recv1 w h fl sent p acc2 d n = recv1 w h fl sent p acc d n };
    assert { forall d. cellok w h d -> rsame w h fl sent sent p acc2 acc d };
    assert { forall d. cellok w h d -> recv w h fl sent p acc2 d = recv w h fl sent p acc d };
    assert { forall d. cellok w h d -> dat d -> acc d = own d +. recv w h fl sent p acc d };
    assert { forall d. cellok w h d -> dat d -> d <> c -> acc2 d = own2 d +. recv w h fl sent p acc2 d };
    assert { acc c = own c +. recv w h fl sent p acc c };
    assert { acc2 c = own2 c +. recv w h fl sent p acc2 c };
    assert { sums w h fl p dat own2 acc2 sent };
    assert { stok w h dat deps sent st };
    assert { forall d. d <> c -> st2 d = st d };
    assert { forall d n. cellok w h d -> 1 <= n <= 8 -> sent d n -> st2 d = 2 };
    assert { forall d. cellok w h d -> dat d -> (st2 d = 0 <-> deps d > 0) };
    assert { forall d. 0 <= st2 d <= 2 };
    assert { stok w h dat deps sent st2 };
    assert { accst w h fl p dat own2 acc2 deps sent st2 };
    assert { forall d. cellok w h d -> st2 d = 1 -> exists k. hd + 1 <= k < tl /\ q k = d };
    assert { accq w h st2 q (hd+1) tl };
    assert { handed w h fl sent st2 c 1 }
  let ghost hand_skip (w h: int) (fl sent: int -> int -> bool) (st: int -> int) (cur k: int) : unit
    requires { handed w h fl sent st cur k /\ not fl cur k } ensures { handed w h fl sent st cur (k+1) }
  = ()
  let ghost hand_end (w h: int) (fl sent: int -> int -> bool) (st: int -> int) (cur k: int) : unit
    requires { handed w h fl sent st cur k } requires { k > 8 \/ forall n. k <= n <= 8 -> not fl cur n } ensures { handed w h fl sent st (-1) 9 }
  = ()
  (* the only cell that changes is the receiver *)
  let ghost recv_other (w h: int) (fl sent sent2: int -> int -> bool) (p: int -> int -> real) (acc acc2: int -> real) (ci n c: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n }
    requires { forall k. 1 <= k <= 8 -> not sent (nb w ci n) k } requires { upr acc acc2 (nb w ci n) (acc2 (nb w ci n)) }
    requires { cellok w h c /\ c <> nb w ci n } ensures { recv w h fl sent2 p acc2 c = recv w h fl sent p acc c }
  = let ghost t = pure { nb w ci n } in
    assert { t <> ci };
    other_i w h ci n;
    assert { forall k. 1 <= k <= 8 -> not sent2 t k };
    assert { forall k. 1 <= k <= 8 -> has w h c k -> nb w c k = t -> 1 <= d8_inverse k <= 8 };
    assert { forall k. 1 <= k <= 8 -> has w h c k -> nb w c k = t -> recv1 w h fl sent2 p acc2 c k = 0.0 /\ recv1 w h fl sent p acc c k = 0.0 };
    assert { forall k. 1 <= k <= 8 -> has w h c k -> nb w c k <> t -> (sent2 (nb w c k) (d8_inverse k) <-> sent (nb w c k) (d8_inverse k)) };
    assert { forall k. 1 <= k <= 8 -> recv1 w h fl sent2 p acc2 c k = recv1 w h fl sent p acc c k };
    assert { rsame w h fl sent2 sent p acc2 acc c }
  let ghost recv_all (w h: int) (fl sent sent2: int -> int -> bool) (p: int -> int -> real) (acc acc2: int -> real) (ci n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n }
    requires { forall k. 1 <= k <= 8 -> not sent (nb w ci n) k } requires { upr acc acc2 (nb w ci n) (acc2 (nb w ci n)) }
    ensures { forall c. cellok w h c -> c <> nb w ci n -> recv w h fl sent2 p acc2 c = recv w h fl sent p acc c }
  = let lemma aux (c: int) : unit requires { cellok w h c /\ c <> nb w ci n } ensures { recv w h fl sent2 p acc2 c = recv w h fl sent p acc c }
      = recv_other w h fl sent sent2 p acc acc2 ci n c in
    ()
  let ghost recv_there (w h: int) (fl sent sent2: int -> int -> bool) (p: int -> int -> real) (acc acc2: int -> real) (ci n: int) : unit
    requires { 0 < w /\ 0 <= h /\ cellok w h ci /\ has w h ci n } requires { sentup sent sent2 ci n } requires { fl ci n /\ not sent ci n }
    requires { forall k. 1 <= k <= 8 -> not sent (nb w ci n) k } requires { upr acc acc2 (nb w ci n) (acc2 (nb w ci n)) }
    ensures { recv w h fl sent2 p acc2 (nb w ci n) = recv w h fl sent p acc (nb w ci n) +. share (p ci n) (acc ci) }
  = let ghost t = pure { nb w ci n } in
    let ghost k0 = pure { d8_inverse n } in
    assert { has w h t k0 /\ nb w t k0 = ci /\ d8_inverse k0 = n /\ cellok w h t /\ t <> ci };
    assert { acc2 ci = acc ci };
    assert { recv1 w h fl sent p acc t k0 = 0.0 };
    assert { recv1 w h fl sent2 p acc2 t k0 = share (p ci n) (acc ci) };
    assert { forall k. 1 <= k <= 8 -> has w h t k -> k <> k0 -> not (nb w t k = ci /\ d8_inverse k = n) };
    assert { forall k. 1 <= k <= 8 -> has w h t k -> nb w t k <> t };
    assert { forall k. 1 <= k <= 8 -> k <> k0 -> recv1 w h fl sent p acc t k = recv1 w h fl sent2 p acc2 t k };
    sum8r_upd (pure { recv1 w h fl sent p acc t }) (pure { recv1 w h fl sent2 p acc2 t }) k0
  let ghost send_stok (w h: int) (dat: int -> bool) (deps deps2: int -> int) (sent sent2: int -> int -> bool) (st st2: int -> int) (ci n t: int) : unit
    requires { stok w h dat deps sent st } requires { cellok w h ci /\ st ci = 2 /\ t <> ci /\ cellok w h t /\ dat t /\ deps t >= 1 }
    requires { sentup sent sent2 ci n } requires { upi deps deps2 t (deps t - 1) }
    requires { deps2 t = 0 -> upi st st2 t 1 } requires { deps2 t <> 0 -> st2 = st }
    ensures { stok w h dat deps2 sent2 st2 }
  = assert { st t = 0 };
    assert { forall c. c <> t -> st2 c = st c };
    assert { forall k. 1 <= k <= 8 -> not sent t k };
    assert { forall c k. cellok w h c -> 1 <= k <= 8 -> sent2 c k -> st2 c = 2 };
    assert { forall c. cellok w h c -> dat c -> (st2 c = 0 <-> deps2 c > 0) }
  let ghost send_accq (w h: int) (st st2 q q2: int -> int) (hd tl t: int) : unit
    requires { accq w h st q hd tl /\ hd <= tl } requires { cellok w h t /\ st t = 0 } requires { upi st st2 t 1 }
    requires { q2 tl = t /\ forall k. k < tl -> q2 k = q k }
    ensures { accq w h st2 q2 hd (tl+1) }
  = assert { forall k. hd <= k < tl -> q k <> t };
    assert { forall k. hd <= k < tl + 1 -> cellok w h (q2 k) /\ st2 (q2 k) = 1 };
    assert { forall i j. hd <= i < j < tl + 1 -> q2 i <> q2 j };
    assert { forall d. cellok w h d -> st2 d = 1 -> d <> t -> st d = 1 };
    assert { forall d. cellok w h d -> st d = 1 -> exists k. hd <= k < tl + 1 /\ q2 k = d };
    assert { exists k. hd <= k < tl + 1 /\ q2 k = t by hd <= tl < tl + 1 /\ q2 tl = t }
  let ghost acc_send (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc acc2: int -> real) (deps deps2: int -> int) (sent sent2: int -> int -> bool) (st st2: int -> int) (q q2: int -> int) (hd tl tl2 ci n: int) : unit
    requires { 0 < w /\ 0 <= h } requires { accst w h fl p dat own acc deps sent st } requires { accq w h st q hd tl } requires { handed w h fl sent st ci n }
    requires { cellok w h ci /\ st ci = 2 /\ 1 <= n <= 8 /\ fl ci n /\ hd <= tl }
    requires { upr acc acc2 (nb w ci n) (acc (nb w ci n) +. share (p ci n) (acc ci)) }
    requires { upi deps deps2 (nb w ci n) (deps (nb w ci n) - 1) }
    requires { sentup sent sent2 ci n }
    requires { deps2 (nb w ci n) = 0 -> tl2 = tl + 1 /\ q2 tl = nb w ci n /\ (forall k. k < tl -> q2 k = q k) /\ upi st st2 (nb w ci n) 1 }
    requires { deps2 (nb w ci n) <> 0 -> tl2 = tl /\ q2 = q /\ st2 = st }
    ensures { accst w h fl p dat own acc2 deps2 sent2 st2 }
    ensures { accq w h st2 q2 hd tl2 }
    ensures { handed w h fl sent2 st2 ci (n+1) }
    ensures { st2 ci = 2 /\ acc2 ci = acc ci }
  = let ghost t = pure { nb w ci n } in
    let ghost k0 = pure { d8_inverse n } in
    assert { has w h ci n /\ dat t };
    assert { cellok w h t /\ has w h t k0 /\ nb w t k0 = ci /\ t <> ci /\ d8_inverse k0 = n };
    assert { not sent ci n };
    pend_pos w h fl sent t k0;
    assert { deps t >= 1 };
    assert { st t = 0 };
    assert { forall n. 1 <= n <= 8 -> not sent t n };
    pend_there w h fl sent sent2 ci n;
    pend_all w h fl sent sent2 ci n;
    recv_there w h fl sent sent2 p acc acc2 ci n;
    recv_all w h fl sent sent2 p acc acc2 ci n;
    assert { forall c. cellok w h c -> c <> t -> pend w h fl sent2 c = pend w h fl sent c };
    assert { forall c. cellok w h c -> c <> t -> recv w h fl sent2 p acc2 c = recv w h fl sent p acc c };
    assert { forall c. cellok w h c -> dat c -> c <> t -> deps2 c = deps c /\ deps c = pend w h fl sent c };
    assert { counted w h fl dat deps2 sent2 };
    assert { forall c. cellok w h c -> dat c -> c <> t -> acc2 c = acc c /\ acc c = own c +. recv w h fl sent p acc c };
    assert { acc t = own t +. recv w h fl sent p acc t };
    assert { acc2 t = acc t +. share (p ci n) (acc ci) };
    assert { acc2 t = own t +. recv w h fl sent2 p acc2 t };
    assert { sums w h fl p dat own acc2 sent2 };
    send_stok w h dat deps deps2 sent sent2 st st2 ci n t;
    if pure { deps2 t = 0 } then send_accq w h st st2 q q2 hd tl t;
    assert { accq w h st2 q2 hd tl2 };
    assert { forall c. st2 c = 2 <-> st c = 2 };
    assert { handed w h fl sent2 st2 ci (n+1) }
  predicate acyclic (w h: int) (fl: int -> int -> bool) (ord: int -> int) =
    (forall c. cellok w h c -> 0 <= ord c) /\ forall c n [fl c n]. cellok w h c -> 1 <= n <= 8 -> fl c n -> ord c < ord (nb w c n)
  let rec ghost all_done (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) (deps: int -> int) (sent: int -> int -> bool) (st: int -> int) (q: int -> int) (hd tl: int) (ord: int -> int) (c: int) : unit
    requires { 0 < w /\ 0 <= h } requires { accst w h fl p dat own acc deps sent st } requires { accq w h st q hd tl /\ tl <= hd } requires { handed w h fl sent st (-1) 9 }
    requires { acyclic w h fl ord } requires { cellok w h c /\ dat c }
    variant { if ord c >= 0 then ord c else 0 }
    ensures { st c = 2 }
  = if pure { st c = 2 } then () else begin
      assert { st c <> 1 };
      assert { deps c > 0 };
      let ghost ref k = 1 in
      while k <= 8 do
        invariant { 1 <= k <= 9 /\ forall j. 1 <= j < k -> pend1 w h fl sent c j = 0 }
        variant { 9 - k }
        if pure { pend1 w h fl sent c k <> 0 } then begin
          let ghost s = pure { nb w c k } in
          assert { fl s (d8_inverse k) /\ cellok w h s /\ not sent s (d8_inverse k) /\ nb w s (d8_inverse k) = c /\ dat s };
          all_done w h fl p dat own acc deps sent st q hd tl ord s;
          assert { false }
        end;
        k <- k + 1
      done;
      assert { pend w h fl sent c = 0 }
    end
  predicate balanced (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) =
    forall c [acc c]. cellok w h c -> dat c -> acc c = own c +. recv w h fl all_sent p acc c
  predicate finished (w h: int) (dat: int -> bool) (st: int -> int) = forall c [st c]. cellok w h c -> dat c -> st c = 2
  let ghost acc_end (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own acc: int -> real) (deps: int -> int) (sent: int -> int -> bool) (st: int -> int) (q: int -> int) (hd tl: int) : unit
    requires { 0 < w /\ 0 <= h } requires { accst w h fl p dat own acc deps sent st } requires { accq w h st q hd tl /\ tl <= hd } requires { handed w h fl sent st (-1) 9 }
    requires { exists ord. acyclic w h fl ord }
    ensures { balanced w h fl p dat own acc /\ finished w h dat st }
  = let ghost ord = any (int -> int) ensures { acyclic w h fl result } in
    let lemma aux (c: int) : unit requires { cellok w h c /\ dat c } ensures { st c = 2 } = all_done w h fl p dat own acc deps sent st q hd tl ord c in
    assert { finished w h dat st };
    assert { forall s n. cellok w h s -> 1 <= n <= 8 -> fl s n -> sent s n };
    assert { forall c. cellok w h c -> dat c -> rsame w h fl sent all_sent p acc acc c }
  let ghost balanced_ext (w h: int) (fl: int -> int -> bool) (p: int -> int -> real) (dat: int -> bool) (own own2 acc acc2: int -> real) : unit
    requires { 0 < w /\ 0 <= h /\ flok w h fl dat /\ balanced w h fl p dat own acc } requires { forall c. cellok w h c -> dat c -> acc2 c = acc c /\ own2 c = own c }
    ensures { balanced w h fl p dat own2 acc2 }
  = assert { forall c n. cellok w h c -> has w h c n -> fl (nb w c n) (d8_inverse n) -> cellok w h (nb w c n) /\ dat (nb w c n) };
    assert { forall c n. cellok w h c -> 1 <= n <= 8 -> recv1 w h fl all_sent p acc2 c n = recv1 w h fl all_sent p acc c n };
    assert { forall c. cellok w h c -> rsame w h fl all_sent all_sent p acc2 acc c };
    assert { forall c. cellok w h c -> dat c -> acc c = own c +. recv w h fl all_sent p acc c }
  lemma empty_balanced: forall w h fl p dat own acc. 0 <= w -> 0 <= h -> w = 0 \/ h = 0 -> balanced w h fl p dat own acc

  (* ---- flow proportions: nine numbers for each cell, the first one its state *)
  function pdat (p: int -> real) (nd: real) : int -> bool = fun c -> p (9 * c) <> nd
  function pfl (w h: int) (p: int -> real) (nd: real) : int -> int -> bool =
    fun c n -> has w h c n && not (isedge w h (ix w c) (iy w c)) && p (9 * c + n) >. 0.0 && p (9 * c) <> nd && p (9 * nb w c n) <> nd
  function pp (p: int -> real) : int -> int -> real = fun c n -> p (9 * c + n)
  lemma pfl_ok: forall w h p nd. flok w h (pfl w h p nd) (pdat p nd)
  (* edge cells send nothing *)
  predicate edges_keep (w h: int) (p: int -> real) (nd: real) = forall c n [p (9 * c + n)]. cellok w h c -> isedge w h (ix w c) (iy w c) -> p (9 * c) <> nd -> 1 <= n <= 8 -> p (9 * c + n) <=. 0.0

  let ghost sends (w h: int) (p: int -> real) (nd: real) (ci n: int) : unit
    requires { edges_keep w h p nd /\ cellok w h ci /\ 0 < w /\ 0 <= h /\ p (9 * ci) <> nd /\ 1 <= n <= 8 /\ p (9 * ci + n) >. 0.0 }
    ensures { has w h ci n /\ cellok w h (nb w ci n) /\ (pfl w h p nd ci n <-> p (9 * nb w ci n) <> nd) }
  = ()

  (* ---- D8 directions *)
  function ddat (d: int -> int) (nd: int) : int -> bool = fun c -> d c <> nd
  function dfl (w h: int) (d: int -> int) (nd: int) : int -> int -> bool = fun c n -> has w h c n && d c <> nd && d c = n && d (nb w c n) <> nd
  function one2 : int -> int -> real = fun _ _ -> 1.0
  lemma dfl_ok: forall w h d nd. flok w h (dfl w h d nd) (ddat d nd)
  function own1 (st: int -> int) : int -> real = fun c -> if st c = 2 then 1.0 else 0.0
  function ones : int -> real = fun _ -> 1.0
  function zeror : int -> real = fun _ -> 0.0
  let ghost cnt_none (w h: int) (d: int -> int) (nd: int) (deps: int -> int) (x y: int) : unit
    requires { 0 < w /\ 0 <= h /\ ing w h x y } requires { cnt w h (dfl w h d nd) (ddat d nd) deps x y 1 } requires { not dfl w h d nd (idx w x y) (d (idx w x y)) }
    ensures { cnt w h (dfl w h d nd) (ddat d nd) deps (x+1) y 1 }
  = assert { forall k. not dfl w h d nd (idx w x y) k };
    cnt_cell w h (dfl w h d nd) (ddat d nd) deps x y 1
  let ghost dfl_flok (w h: int) (d: int -> int) (nd: int) : unit ensures { flok w h (dfl w h d nd) (ddat d nd) } = ()
  let ghost cnt_one (w h: int) (d: int -> int) (nd: int) (deps deps2: int -> int) (x y: int) : unit
    requires { 0 < w /\ 0 <= h /\ ing w h x y } requires { cnt w h (dfl w h d nd) (ddat d nd) deps x y 1 }
    requires { dfl w h d nd (idx w x y) (d (idx w x y)) -> upi deps deps2 (nb w (idx w x y) (d (idx w x y))) (deps (nb w (idx w x y) (d (idx w x y))) + 1) }
    requires { not dfl w h d nd (idx w x y) (d (idx w x y)) -> forall c. cellok w h c -> d c <> nd -> deps2 c = deps c }
    ensures { cnt w h (dfl w h d nd) (ddat d nd) deps2 (x+1) y 1 }
  = let ghost fl = pure { dfl w h d nd } in
    let ghost dat = pure { ddat d nd } in
    let ghost ci = pure { idx w x y } in
    let ghost m = pure { d ci } in
    assert { ix w ci = x /\ iy w ci = y /\ cellok w h ci };
    if pure { fl ci m } then begin
      assert { 1 <= m <= 8 };
      assert { same_sent w h fl (unbef w x y 1) (unbef w x y m) };
      counted_ext w h fl dat deps (unbef w x y 1) (unbef w x y m);
      dfl_flok w h d nd;
      cnt_step w h fl dat deps deps2 x y m;
      assert { forall k. m < k <= 8 -> not fl ci k };
      cnt_cell w h fl dat deps2 x y (m+1)
    end else begin
      cnt_none w h d nd deps x y;
      assert { counted w h fl dat deps2 (unbef w (x+1) y 1) }
    end
  let ghost hand_none (w h: int) (d: int -> int) (nd: int) (sent: int -> int -> bool) (st: int -> int) (c: int) : unit
    requires { handed w h (dfl w h d nd) sent st c 1 /\ not dfl w h d nd c (d c) } ensures { handed w h (dfl w h d nd) sent st (-1) 9 }
  = assert { forall k. not dfl w h d nd c k };
    hand_end w h (dfl w h d nd) sent st c 1
  let ghost hand_jump (w h: int) (d: int -> int) (nd: int) (sent: int -> int -> bool) (st: int -> int) (c m: int) : unit
    requires { handed w h (dfl w h d nd) sent st c 1 /\ m = d c /\ 1 <= m } ensures { handed w h (dfl w h d nd) sent st c m }
  = assert { forall k. k <> m -> not dfl w h d nd c k }
  let ghost hand_last (w h: int) (d: int -> int) (nd: int) (sent: int -> int -> bool) (st: int -> int) (c m: int) : unit
    requires { handed w h (dfl w h d nd) sent st c (m+1) /\ m = d c } ensures { handed w h (dfl w h d nd) sent st (-1) 9 }
  = assert { forall k. k <> m -> not dfl w h d nd c k };
    hand_end w h (dfl w h d nd) sent st c (m+1)
  (* the cells before (x,y) are set up *)
  predicate area0 (w h: int) (d: int -> int) (nd: int) (a: int -> real) (nda: real) (x y: int) = forall c [a c]. cellok w h c ->
    a c = if d c = nd && (iy w c < y || iy w c = y && ix w c < x) then nda else 0.0
  predicate ownst (w h: int) (own: int -> real) (st: int -> int) = forall c [own c|st c]. cellok w h c -> own c = if st c = 2 then 1.0 else 0.0
  let ghost row_end (w y: int) : unit requires { 0 <= w } ensures { idx w w y = idx w 0 (y+1) } = use_idx w w y; use_idx w 0 (y+1)
  let ghost last_row (w h: int) : unit requires { 0 <= w } ensures { idx w 0 h = area w h } = use_idx w 0 h; use_area w h
end

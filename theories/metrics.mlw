(* Flow metrics: how every cell shares its flow among its neighbours *)
(* products and quotients of reals, kept closed; use_mulp and use_quot open them *)
module MArith
  use real.RealInfix
  function mulp (a b: real) : real
  val mulp (a b: real) : real ensures { result = mulp a b }
  function quotl (a b: real) : real
  val quot (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = quotl a b }
  val ghost use_mulp (a b: real) : unit ensures { mulp a b = a *. b }
  val ghost use_quot (a b: real) : unit ensures { b <> 0.0 -> quotl a b = a /. b }
end
module MArithProof
  use real.RealInfix
  function mulp (a b: real) : real = a *. b
  let mulp (a b: real) : real ensures { result = mulp a b } = a *. b
  function quotl (a b: real) : real = a /. b
  val div (a b: real) : real requires { b <> 0.0 } ensures { result = a /. b }
  let quot (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = quotl a b } = div a b
  let ghost use_mulp (a b: real) : unit ensures { mulp a b = a *. b } = ()
  let ghost use_quot (a b: real) : unit ensures { b <> 0.0 -> quotl a b = a /. b } = ()
  clone MArith with function mulp = mulp, val mulp = mulp, function quotl = quotl, val quot = quot, val use_mulp = use_mulp, val use_quot = use_quot
end
module MET
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  use MArith
  (* number n of cell c *)
  function pv (p: int -> real) (c n: int) : real
  axiom pv_def: forall p c n [pv p c n]. 0 <= n -> pv p c n = p (9 * c + n)
  function tx (m n: int) : int = if m = 8 then d8x n else d4x n
  function ty (m n: int) : int = if m = 8 then d8y n else d4y n
  (* neighbour n of the cell at (x,y) is in the raster, data and lower *)
  predicate lower (m w h: int) (z: int -> real) (nd: real) (x y n: int) =
    1 <= n <= m /\ ing w h (x + tx m n) (y + ty m n) /\ z (idx w (x + tx m n) (y + ty m n)) <> nd /\ z (idx w (x + tx m n) (y + ty m n)) <. z (idx w x y)
  predicate canflow (m w h: int) (z: int -> real) (nd: real) (x y: int) = not isedge w h x y /\ exists n. lower m w h z nd x y n
  predicate lowest_of (m w h: int) (z: int -> real) (nd: real) (x y k: int) =
    forall n. lower m w h z nd x y n -> z (idx w (x + tx m k) (y + ty m k)) <=. z (idx w (x + tx m n) (y + ty m n))
  (* all flow goes to lower neighbour k; where lowest is set, none is lower than k *)
  predicate single (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y k: int) =
    lower m w h z nd x y k /\ pv p (idx w x y) k = 1.0 /\ (forall n [pv p (idx w x y) n]. 1 <= n <= 8 -> n <> k -> pv p (idx w x y) n = -. 1.0) /\
    (lowest -> lowest_of m w h z nd x y k)
  predicate goes_single (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) = exists k. single lowest m w h z nd p x y k
  predicate quiet (w: int) (p: int -> real) (x y: int) = forall n [pv p (idx w x y) n]. 1 <= n <= 8 -> pv p (idx w x y) n = -. 1.0
  predicate sd_law (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    if z (idx w x y) = nd then pv p (idx w x y) 0 = -. 2.0 /\ quiet w p x y
    else if canflow m w h z nd x y then pv p (idx w x y) 0 = 0.0 /\ goes_single lowest m w h z nd p x y
    else pv p (idx w x y) 0 = -. 1.0 /\ quiet w p x y
  predicate sd_upto (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    forall i j [idx w i j]. ing w h i j -> j < y \/ j = y /\ i < x -> sd_law lowest m w h z nd p i j
  predicate sd_all (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p: int -> real) =
    forall i j [idx w i j]. ing w h i j -> sd_law lowest m w h z nd p i j
  predicate finite (w h: int) (z: int -> real) = forall i [z i]. 0 <= i < area w h -> z i <=. flt_maxl
  (* cells not reached yet *)
  predicate fresh_from (w h: int) (p: int -> real) (x y: int) =
    forall i j n [pv p (idx w i j) n]. ing w h i j -> 0 <= n <= 8 -> j > y \/ j = y /\ i >= x -> pv p (idx w i j) n = -. 1.0
  predicate frame1 (c: int) (p q: int -> real) = forall i [q i]. not (9 * c <= i <= 9 * c + 8) -> q i = p i
  let ghost fresh_here (w h: int) (p: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { fresh_from w h p x y }
    ensures { forall i [p i]. 9 * idx w x y <= i <= 9 * idx w x y + 8 -> p i = -. 1.0 }
  = assert { forall i. 9 * idx w x y <= i <= 9 * idx w x y + 8 -> pv p (idx w x y) (i - 9 * idx w x y) = p i };
    assert { forall i. 9 * idx w x y <= i <= 9 * idx w x y + 8 -> pv p (idx w x y) (i - 9 * idx w x y) = -. 1.0 }
  let ghost fresh_step (w h: int) (p q: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { fresh_from w h p x y } requires { frame1 (idx w x y) p q }
    ensures { fresh_from w h q (x+1) y }
  = assert { forall i j. ing w h i j -> idx w i j = idx w x y -> i = x /\ j = y }
  predicate agree (c: int) (p q: int -> real) = forall n [pv q c n]. 0 <= n <= 8 -> pv q c n = pv p c n
  let ghost agree_off (w h: int) (p q: int -> real) (x y i j: int) : unit
    requires { ing w h x y /\ ing w h i j /\ (i <> x \/ j <> y) /\ frame1 (idx w x y) p q } ensures { agree (idx w i j) p q }
  = assert { idx w i j <> idx w x y };
    assert { forall n. 0 <= n <= 8 -> q (9 * idx w i j + n) = p (9 * idx w i j + n) }
  let ghost sd_frame (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p q: int -> real) (i j: int) : unit
    requires { m = 8 \/ m = 4 } requires { agree (idx w i j) p q } requires { sd_law lowest m w h z nd p i j }
    ensures { sd_law lowest m w h z nd q i j }
  = assert { pv q (idx w i j) 0 = pv p (idx w i j) 0 };
    assert { quiet w p i j -> quiet w q i j };
    let lemma one (k: int) : unit requires { single lowest m w h z nd p i j k } ensures { goes_single lowest m w h z nd q i j }
    = assert { pv q (idx w i j) k = 1.0 }; assert { single lowest m w h z nd q i j k } in
    ()
  let ghost sd_step (lowest: bool) (m w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { sd_upto lowest m w h z nd p x y } requires { frame1 (idx w x y) p q }
    requires { m = 8 \/ m = 4 } requires { sd_law lowest m w h z nd q x y }
    ensures { sd_upto lowest m w h z nd q (x+1) y }
  = let lemma aux (i j: int) : unit
      requires { ing w h i j } requires { j < y \/ j = y /\ i < x } ensures { sd_law lowest m w h z nd q i j }
    = agree_off w h p q x y i j; sd_frame lowest m w h z nd p q i j in
    ()
end
(* Multiple flow directions: shares in proportion to a power of the gradient *)
module MFD
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  use geom.GEOM
  use MArith
  use MET
  (* rounding to single precision, for numbers up to two *)
  axiom f32_err: forall x [to_f32 x]. 0.0 <=. x <=. 2.0 -> -. 0.0000001 <=. to_f32 x -. x <=. 0.0000001
  axiom f32_0: to_f32 0.0 = 0.0
  axiom f32_1: to_f32 1.0 = 1.0
  (* powers with a positive exponent of numbers up to one *)
  axiom pow_unit: forall x y [powl x y]. 0.0 <. x <=. 1.0 -> 0.0 <. y -> 0.0 <. powl x y <=. 1.0
  axiom pow_one: forall y [powl 1.0 y]. powl 1.0 y = 1.0
  (* contour lengths of Holmgren *)
  function hlen (n: int) : real = if n = 0 then 0.0 else if n = 2 || n = 4 || n = 6 || n = 8 then 0.35399999999999998 else 0.5
  (* gradient towards neighbour n, for Holmgren times the contour length *)
  function gr (holm: bool) (w: int) (z: int -> real) (x y n: int) : real
  axiom gr_def: forall holm w z x y n [gr holm w z x y n]. 1 <= n <= 8 ->
    gr holm w z x y n = let g = quotl (z (idx w x y) -. z (idx w (x + tx 8 n) (y + ty 8 n))) (d8dist n) in if holm then mulp g (hlen n) else g
  let ghost gr_pos (holm: bool) (w: int) (z: int -> real) (x y n: int) : unit
    requires { 1 <= n <= 8 } requires { z (idx w (x + tx 8 n) (y + ty 8 n)) <. z (idx w x y) }
    ensures { gr holm w z x y n >. 0.0 }
  = use_quot (z (idx w x y) -. z (idx w (x + tx 8 n) (y + ty 8 n))) (d8dist n);
    use_mulp (quotl (z (idx w x y) -. z (idx w (x + tx 8 n) (y + ty 8 n))) (d8dist n)) (hlen n);
    assert { d8dist n >. 0.0 /\ hlen n >. 0.0 };
    assert { quotl (z (idx w x y) -. z (idx w (x + tx 8 n) (y + ty 8 n))) (d8dist n) >. 0.0 }
  let rec ghost function wsum (v: int -> real) (n: int) : real variant { n } = if n <= 1 then 0.0 else wsum v (n-1) +. v (n-1)
  predicate near (a b: real) = -. 0.000002 <=. a -. b <=. 0.000002
  (* g is the greatest gradient, v the weights *)
  predicate greatest (holm: bool) (w h: int) (z: int -> real) (nd: real) (x y: int) (g: real) (n: int) =
    (forall k [gr holm w z x y k]. 1 <= k < n -> lower 8 w h z nd x y k -> gr holm w z x y k <=. g) /\
    (if g = 0.0 then forall k. 1 <= k < n -> not lower 8 w h z nd x y k else g >. 0.0)
  predicate is_greatest (holm: bool) (w h: int) (z: int -> real) (nd: real) (x y: int) (g: real) =
    greatest holm w h z nd x y g 9 /\ exists k. lower 8 w h z nd x y k /\ gr holm w z x y k = g
  predicate weight (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (x y: int) (g v: real) (k: int) =
    if lower 8 w h z nd x y k then v = powl (quotl (gr holm w z x y k) g) ex else v = 0.0
  predicate sharek (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (v: real) (s: real) (k: int) =
    0.0 <=. pv p (idx w x y) k /\ (pv p (idx w x y) k >. 0.0 -> lower 8 w h z nd x y k) /\ near (pv p (idx w x y) k) (quotl v s)
  predicate shares (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) (v: int -> real)
  axiom shares_def1: forall holm ex w h z nd p x y g v [shares holm ex w h z nd p x y g v]. shares holm ex w h z nd p x y g v ->
    is_greatest holm w h z nd x y g /\
    (forall k [v k]. 1 <= k <= 8 -> weight holm ex w h z nd x y g (v k) k) /\
    (forall k [pv p (idx w x y) k]. 1 <= k <= 8 -> sharek w h z nd p x y (v k) (wsum v 9) k)
  axiom shares_def2: forall holm ex w h z nd p x y g v [shares holm ex w h z nd p x y g v].
    (is_greatest holm w h z nd x y g /\
    (forall k [v k]. 1 <= k <= 8 -> weight holm ex w h z nd x y g (v k) k) /\
    (forall k [pv p (idx w x y) k]. 1 <= k <= 8 -> sharek w h z nd p x y (v k) (wsum v 9) k)) -> shares holm ex w h z nd p x y g v
  predicate shared (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) = exists g v. shares holm ex w h z nd p x y g v
  predicate sums_to_one (w: int) (p: int -> real) (x y: int) =
    let c = idx w x y in -. 0.00002 <=. pv p c 1 +. pv p c 2 +. pv p c 3 +. pv p c 4 +. pv p c 5 +. pv p c 6 +. pv p c 7 +. pv p c 8 -. 1.0 <=. 0.00002
  predicate md_law (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    if z (idx w x y) = nd then pv p (idx w x y) 0 = -. 2.0 /\ quiet w p x y
    else if canflow 8 w h z nd x y then pv p (idx w x y) 0 = 0.0 /\ shared holm ex w h z nd p x y /\ sums_to_one w p x y
    else pv p (idx w x y) 0 = -. 1.0 /\ quiet w p x y
  predicate md_upto (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    forall i j [idx w i j]. ing w h i j -> j < y \/ j = y /\ i < x -> md_law holm ex w h z nd p i j
  predicate md_all (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) =
    forall i j [idx w i j]. ing w h i j -> md_law holm ex w h z nd p i j
  let ghost md_frame (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (i j: int) : unit
    requires { agree (idx w i j) p q } requires { md_law holm ex w h z nd p i j }
    ensures { md_law holm ex w h z nd q i j }
  = assert { pv q (idx w i j) 0 = pv p (idx w i j) 0 };
    assert { quiet w p i j -> quiet w q i j };
    assert { sums_to_one w p i j -> sums_to_one w q i j };
    if pure { shared holm ex w h z nd p i j } then begin
      let ghost g = any real ensures { exists v. shares holm ex w h z nd p i j result v } in
      let ghost v = any (int -> real) ensures { shares holm ex w h z nd p i j g result } in
      assert { forall k. 1 <= k <= 8 -> pv q (idx w i j) k = pv p (idx w i j) k };
      assert { forall k. 1 <= k <= 8 -> sharek w h z nd q i j (v k) (wsum v 9) k };
      assert { shares holm ex w h z nd q i j g v };
      assert { shared holm ex w h z nd q i j }
    end
  let ghost md_step (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { md_upto holm ex w h z nd p x y } requires { frame1 (idx w x y) p q }
    requires { md_law holm ex w h z nd q x y }
    ensures { md_upto holm ex w h z nd q (x+1) y }
  = let lemma aux (i j: int) : unit
      requires { ing w h i j } requires { j < y \/ j = y /\ i < x } ensures { md_law holm ex w h z nd q i j }
    = agree_off w h p q x y i j; md_frame holm ex w h z nd p q i j in
    ()
  (* sums of weights *)
  let rec ghost wsum_ext (u v: int -> real) (n: int) : unit requires { forall k. 1 <= k < n -> u k = v k } ensures { wsum u n = wsum v n } variant { n }
  = if n > 1 then wsum_ext u v (n-1)
  let rec ghost wsum_zero (v: int -> real) (n: int) : unit requires { forall k. 1 <= k < n -> v k = 0.0 } ensures { wsum v n = 0.0 } variant { n }
  = if n > 1 then wsum_zero v (n-1)
  let rec ghost wsum_nn (v: int -> real) (n: int) : unit requires { forall k. 1 <= k < n -> 0.0 <=. v k } ensures { 0.0 <=. wsum v n } variant { n }
  = if n > 1 then wsum_nn v (n-1)
  let rec ghost wsum_ge (v: int -> real) (n j: int) : unit requires { 1 <= j < n } requires { forall k. 1 <= k < n -> 0.0 <=. v k } ensures { v j <=. wsum v n } variant { n }
  = if j = n-1 then wsum_nn v (n-1) else wsum_ge v (n-1) j
  let ghost wsum_8 (v: int -> real) : unit ensures { wsum v 9 = v 1 +. v 2 +. v 3 +. v 4 +. v 5 +. v 6 +. v 7 +. v 8 }
  = assert { wsum v 2 = v 1 }; assert { wsum v 3 = v 1 +. v 2 }; assert { wsum v 4 = wsum v 3 +. v 3 }; assert { wsum v 5 = wsum v 4 +. v 4 };
    assert { wsum v 6 = wsum v 5 +. v 5 }; assert { wsum v 7 = wsum v 6 +. v 6 }; assert { wsum v 8 = wsum v 7 +. v 7 }
  (* one share: weight v, total s, which was rounded to c *)
  let ghost share_near (v s c: real) : unit
    requires { 0.0 <=. v <=. 1.0 } requires { 1.0 <=. c } requires { 1.0 <=. s } requires { -. 0.000001 <=. c -. s <=. 0.000001 }
    ensures { near (to_f32 (mulp (to_f32 v) (quotl 1.0 c))) (quotl v s) } ensures { 0.0 <=. to_f32 (mulp (to_f32 v) (quotl 1.0 c)) }
    ensures { to_f32 v <=. 0.0 -> near 0.0 (quotl v s) }
  = use_quot 1.0 c; use_quot v s; use_mulp (to_f32 v) (quotl 1.0 c);
    let ghost i = quotl 1.0 c in let ghost f = to_f32 v in
    assert { 0.0 <=. f <=. 1.0 };
    assert { 0.0 <. i <=. 1.0 };
    assert { i *. c = 1.0 };
    let ghost u = quotl v s in
    assert { u *. s = v };
    assert { 0.0 <=. u <=. v };
    assert { f *. i -. u = (f -. v) *. i +. (v *. i -. u) };
    assert { -. 0.0000001 <=. (f -. v) *. i <=. 0.0000001 };
    assert { v *. i -. u = u *. (s -. c) *. i };
    assert { 0.0 <=. u *. i <=. 1.0 };
    assert { -. 0.000001 <=. (u *. i) *. (s -. c) <=. 0.000001 };
    assert { 0.0 <=. f *. i <=. 1.0 }
  let ghost unit_sum (s a b c d e f g h: real) : unit
    requires { 1.0 <=. s } requires { a *. s +. b *. s +. c *. s +. d *. s +. e *. s +. f *. s +. g *. s +. h *. s = s }
    ensures { a +. b +. c +. d +. e +. f +. g +. h = 1.0 }
  = assert { (a +. b +. c +. d +. e +. f +. g +. h -. 1.0) *. s = 0.0 }
  let ghost quot_back (v s: real) : unit requires { 1.0 <=. s } ensures { quotl v s *. s = v } = use_quot v s
  (* the shares add up to one *)
  let ghost total_one (w h: int) (z: int -> real) (nd: real) (p v: int -> real) (x y: int) : unit
    requires { 1.0 <=. wsum v 9 }
    requires { forall k [pv p (idx w x y) k]. 1 <= k <= 8 -> sharek w h z nd p x y (v k) (wsum v 9) k }
    ensures { sums_to_one w p x y }
  = let ghost s = wsum v 9 in wsum_8 v;
    quot_back (v 1) s; quot_back (v 2) s; quot_back (v 3) s; quot_back (v 4) s; quot_back (v 5) s; quot_back (v 6) s; quot_back (v 7) s; quot_back (v 8) s;
    unit_sum s (quotl (v 1) s) (quotl (v 2) s) (quotl (v 3) s) (quotl (v 4) s) (quotl (v 5) s) (quotl (v 6) s) (quotl (v 7) s) (quotl (v 8) s);
    assert { near (pv p (idx w x y) 1) (quotl (v 1) s) }; assert { near (pv p (idx w x y) 2) (quotl (v 2) s) };
    assert { near (pv p (idx w x y) 3) (quotl (v 3) s) }; assert { near (pv p (idx w x y) 4) (quotl (v 4) s) };
    assert { near (pv p (idx w x y) 5) (quotl (v 5) s) }; assert { near (pv p (idx w x y) 6) (quotl (v 6) s) };
    assert { near (pv p (idx w x y) 7) (quotl (v 7) s) }; assert { near (pv p (idx w x y) 8) (quotl (v 8) s) }
  (* while the weights are computed: directions below n done *)
  constant zeros : int -> real
  axiom zeros_def: forall n [zeros n]. zeros n = 0.0
  predicate rawk (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) (v: int -> real) (n k: int) =
    0.0 <=. v k <=. 1.0 /\ (if k < n then weight holm ex w h z nd x y g (v k) k else v k = 0.0) /\
    pv p (idx w x y) k = (if k < n && lower 8 w h z nd x y k then to_f32 (v k) else -. 1.0)
  predicate raw_upto (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) (v: int -> real) (n: int) =
    forall k [v k|pv p (idx w x y) k]. 1 <= k <= 8 -> rawk holm ex w h z nd p x y g v n k
  predicate rounded (v f: int -> real) = forall k [f k]. 1 <= k <= 8 -> f k = to_f32 (v k)
  let ghost raw_start (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) : unit
    requires { ing w h x y } requires { fresh_from w h p x y } ensures { raw_upto holm ex w h z nd p x y g zeros 1 } ensures { rounded zeros zeros }
  = assert { forall k. 1 <= k <= 8 -> pv p (idx w x y) k = -. 1.0 }
  let ghost raw_skip (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) (v f: int -> real) (n: int) : unit
    requires { 1 <= n <= 8 } requires { raw_upto holm ex w h z nd p x y g v n } requires { rounded v f }
    ensures { not lower 8 w h z nd x y n -> raw_upto holm ex w h z nd p x y g v (n+1) }
    ensures { not lower 8 w h z nd x y n -> wsum v (n+1) = wsum v n } ensures { not lower 8 w h z nd x y n -> wsum f (n+1) = wsum f n }
  = assert { v n = 0.0 }; assert { f n = 0.0 };
    if pure { not lower 8 w h z nd x y n } then begin
      assert { weight holm ex w h z nd x y g (v n) n };
      assert { forall k. 1 <= k <= 8 -> rawk holm ex w h z nd p x y g v n k -> rawk holm ex w h z nd p x y g v (n+1) k } end
  let ghost quot_unit (a g: real) : unit requires { 0.0 <. a <=. g } ensures { 0.0 <. quotl a g <=. 1.0 }
  = use_quot a g; let ghost u = quotl a g in assert { u *. g = a }; assert { u <=. 1.0 }; assert { 0.0 <. u }
  let ghost raw_set (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) (g: real) (u v: int -> real) (n: int) : unit
    requires { 1 <= n <= 8 } requires { raw_upto holm ex w h z nd p x y g u n } requires { lower 8 w h z nd x y n } requires { ex >. 0.0 }
    requires { greatest holm w h z nd x y g 9 }
    requires { v = Map.set u n (powl (quotl (gr holm w z x y n) g) ex) } requires { q = Map.set p (9 * idx w x y + n) (to_f32 (v n)) }
    ensures { raw_upto holm ex w h z nd q x y g v (n+1) } ensures { wsum v (n+1) = wsum u n +. v n }
  = wsum_ext u v n; gr_pos holm w z x y n;
    assert { 0.0 <. gr holm w z x y n };
    assert { gr holm w z x y n <=. g };
    quot_unit (gr holm w z x y n) g;
    assert { 0.0 <. quotl (gr holm w z x y n) g <=. 1.0 };
    assert { pv q (idx w x y) n = to_f32 (v n) };
    assert { forall k. 1 <= k <= 8 -> k <> n -> pv q (idx w x y) k = pv p (idx w x y) k };
    assert { rawk holm ex w h z nd q x y g v (n+1) n };
    assert { forall k. 1 <= k <= 8 -> k <> n -> rawk holm ex w h z nd p x y g u n k -> rawk holm ex w h z nd q x y g v (n+1) k }
  let ghost rounded_set (u v f e: int -> real) (n: int) (a: real) : unit
    requires { rounded u f } requires { 1 <= n } requires { v = Map.set u n a } requires { e = Map.set f n (to_f32 a) }
    ensures { rounded v e } ensures { wsum e (n+1) = wsum f n +. to_f32 a }
  = wsum_ext f e n
  (* all weights known *)
  let ghost raw_total (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (g: real) (v f: int -> real) (best: int) : unit
    requires { raw_upto holm ex w h z nd p x y g v 9 } requires { rounded v f } requires { greatest holm w h z nd x y g 9 }
    requires { g <> 0.0 -> lower 8 w h z nd x y best /\ gr holm w z x y best = g }
    ensures { if g = 0.0 then wsum v 9 = 0.0 /\ wsum f 9 = 0.0 /\ not canflow 8 w h z nd x y /\ quiet w p x y else 1.0 <=. wsum v 9 /\ 1.0 <=. wsum f 9 }
    ensures { -. 0.000001 <=. wsum f 9 -. wsum v 9 <=. 0.000001 }
  = assert { forall k. 1 <= k <= 8 -> 0.0 <=. v k <=. 1.0 };
    assert { forall k. 1 <= k <= 8 -> 0.0 <=. f k /\ -. 0.0000001 <=. f k -. v k <=. 0.0000001 };
    if pure { g = 0.0 } then begin
      assert { forall k. not lower 8 w h z nd x y k };
      assert { forall k. 1 <= k <= 8 -> rawk holm ex w h z nd p x y g v 9 k -> v k = 0.0 /\ pv p (idx w x y) k = -. 1.0 };
      assert { forall k. 1 <= k <= 8 -> v k = 0.0 };
      assert { forall k. 1 <= k <= 8 -> f k = 0.0 };
      wsum_zero v 9; wsum_zero f 9
    end else begin
      use_quot g g;
      assert { quotl g g = 1.0 };
      assert { rawk holm ex w h z nd p x y g v 9 best };
      assert { v best = 1.0 };
      assert { f best = 1.0 };
      wsum_ge v 9 best; wsum_ge f 9 best
    end;
    wsum_8 v; wsum_8 f;
    assert { -. 0.0000001 <=. f 1 -. v 1 <=. 0.0000001 }; assert { -. 0.0000001 <=. f 2 -. v 2 <=. 0.0000001 }; assert { -. 0.0000001 <=. f 3 -. v 3 <=. 0.0000001 };
    assert { -. 0.0000001 <=. f 4 -. v 4 <=. 0.0000001 }; assert { -. 0.0000001 <=. f 5 -. v 5 <=. 0.0000001 }; assert { -. 0.0000001 <=. f 6 -. v 6 <=. 0.0000001 };
    assert { -. 0.0000001 <=. f 7 -. v 7 <=. 0.0000001 }; assert { -. 0.0000001 <=. f 8 -. v 8 <=. 0.0000001 }
  (* while the shares are computed: directions below n done *)
  predicate fink (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (v: int -> real) (s: real) (n k: int) =
    0.0 <=. v k <=. 1.0 /\ (not lower 8 w h z nd x y k -> v k = 0.0) /\
    if k < n then sharek w h z nd p x y (v k) s k else pv p (idx w x y) k = (if lower 8 w h z nd x y k then to_f32 (v k) else -. 1.0)
  predicate fin_upto (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) (v: int -> real) (s: real) (n: int) =
    forall k [v k|pv p (idx w x y) k]. 1 <= k <= 8 -> fink w h z nd p x y v s n k
  let ghost fin_start (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) (g: real) (v: int -> real) : unit
    requires { raw_upto holm ex w h z nd p x y g v 9 } requires { q = Map.set p (9 * idx w x y) 0.0 }
    ensures { fin_upto w h z nd q x y v (wsum v 9) 1 } ensures { pv q (idx w x y) 0 = 0.0 }
  = assert { forall k. 1 <= k <= 8 -> pv q (idx w x y) k = pv p (idx w x y) k };
    assert { forall k. 1 <= k <= 8 -> rawk holm ex w h z nd p x y g v 9 k -> fink w h z nd q x y v (wsum v 9) 1 k }
  let ghost fin_set (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) (v: int -> real) (c i: real) (n: int) (a: real) : unit
    requires { 1 <= n <= 8 } requires { fin_upto w h z nd p x y v (wsum v 9) n } requires { 1.0 <=. c /\ 1.0 <=. wsum v 9 /\ i = quotl 1.0 c }
    requires { -. 0.000001 <=. c -. wsum v 9 <=. 0.000001 }
    requires { q = Map.set p (9 * idx w x y + n) a } requires { a = if pv p (idx w x y) n >. 0.0 then to_f32 (mulp (pv p (idx w x y) n) i) else 0.0 }
    ensures { fin_upto w h z nd q x y v (wsum v 9) (n+1) } ensures { pv q (idx w x y) 0 = pv p (idx w x y) 0 }
  = assert { fink w h z nd p x y v (wsum v 9) n n };
    share_near (v n) (wsum v 9) c; use_quot (v n) (wsum v 9);
    assert { pv q (idx w x y) n = a };
    assert { forall k. 0 <= k <= 8 -> k <> n -> pv q (idx w x y) k = pv p (idx w x y) k };
    assert { v n = 0.0 -> quotl (v n) (wsum v 9) = 0.0 };
    assert { sharek w h z nd q x y (v n) (wsum v 9) n };
    assert { fink w h z nd q x y v (wsum v 9) (n+1) n };
    assert { forall k. 1 <= k <= 8 -> k <> n -> fink w h z nd p x y v (wsum v 9) n k -> fink w h z nd q x y v (wsum v 9) (n+1) k }
  let ghost fin_law (holm: bool) (ex: real) (w h: int) (z: int -> real) (nd: real) (p0 p: int -> real) (x y: int) (g: real) (v: int -> real) (best: int) : unit
    requires { not isedge w h x y } requires { z (idx w x y) <> nd } requires { raw_upto holm ex w h z nd p0 x y g v 9 }
    requires { fin_upto w h z nd p x y v (wsum v 9) 9 } requires { pv p (idx w x y) 0 = 0.0 } requires { 1.0 <=. wsum v 9 }
    requires { greatest holm w h z nd x y g 9 } requires { lower 8 w h z nd x y best /\ gr holm w z x y best = g }
    ensures { md_law holm ex w h z nd p x y }
  = assert { canflow 8 w h z nd x y };
    assert { is_greatest holm w h z nd x y g };
    assert { forall k. 1 <= k <= 8 -> fink w h z nd p x y v (wsum v 9) 9 k -> sharek w h z nd p x y (v k) (wsum v 9) k };
    assert { forall k. 1 <= k <= 8 -> rawk holm ex w h z nd p0 x y g v 9 k -> weight holm ex w h z nd x y g (v k) k };
    assert { shares holm ex w h z nd p x y g v };
    assert { shared holm ex w h z nd p x y };
    total_one w h z nd p v x y
end
(* D-infinity: the steepest of eight triangular facets takes all flow *)
module DINF
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  use MArith
  use MET
  axiom f32_err1: forall x [to_f32 x]. 0.0 <=. x <=. 1.0 -> -. 0.00000003 <=. to_f32 x -. x <=. 0.00000003
  axiom f32_0: to_f32 0.0 = 0.0
  axiom f32_1: to_f32 1.0 = 1.0
  axiom f32_idem: forall x [to_f32 (to_f32 x)]. to_f32 (to_f32 x) = to_f32 x
  constant dangl : real = 0.785398185253143310546875
  axiom f32_45: to_f32 (atan2l 1.0 1.0) = dangl
  axiom f32_dang: to_f32 dangl = dangl
  axiom atan2_mid: forall y x [atan2l y x]. 0.0 <. atan2l y x <. 1.5707963 -> 0.0 <. y /\ 0.0 <. x
  axiom atan2_right: forall y x [atan2l y x]. 0.0 <. x -> 0.0 <. atan2l y x -> 0.0 <. y
  axiom atan2_up: forall y x [atan2l y x]. x <=. 0.0 -> 0.0 <. y -> 1.5707963 <=. atan2l y x
  axiom mulp_sq: forall a [mulp a a]. mulp a a >=. 0.0
  constant pil : real = 3.1415926535897931
  (* direction of the straight and of the diagonal neighbour of facet n *)
  function fa (n: int) : int = if n = 1 || n = 8 then 1 else if n = 2 || n = 3 then 3 else if n = 4 || n = 5 then 5 else 7
  function fb (n: int) : int = if n = 1 || n = 2 then 2 else if n = 3 || n = 4 then 4 else if n = 5 || n = 6 then 6 else 8
  predicate isdata (w h: int) (z: int -> real) (nd: real) (x y n: int) = ing w h (x + d8x n) (y + d8y n) /\ z (idx w (x + d8x n) (y + d8y n)) <> nd
  predicate usable (w h: int) (z: int -> real) (nd: real) (x y n: int) = isdata w h z nd x y (fa n) /\ isdata w h z nd x y (fb n)
  function zz (w: int) (z: int -> real) (x y n: int) : real = z (idx w (x + d8x n) (y + d8y n))
  function ang (w: int) (z: int -> real) (x y n: int) : real = atan2l (zz w z x y (fa n) -. zz w z x y (fb n)) (zz w z x y 0 -. zz w z x y (fa n))
  constant epsl : real = 0.000000099999999999999995
  (* angle from the straight neighbour, kept within the facet, and slope of facet n *)
  function fr (w: int) (z: int -> real) (x y n: int) : real
  axiom fr_def: forall w z x y n [fr w z x y n]. 1 <= n <= 8 -> fr w z x y n =
    let a = ang w z x y n in if a <. epsl then 0.0 else if a >. dangl -. epsl then dangl else a
  function fs (w: int) (z: int -> real) (x y n: int) : real
  axiom fs_def: forall w z x y n [fs w z x y n]. 1 <= n <= 8 -> fs w z x y n =
    let a = ang w z x y n in let s1 = zz w z x y 0 -. zz w z x y (fa n) in let s2 = zz w z x y (fa n) -. zz w z x y (fb n) in
    if a <. epsl then s1 else if a >. dangl -. epsl then quotl (zz w z x y 0 -. zz w z x y (fb n)) (sqrtl 2.0) else sqrtl (mulp s1 s1 +. mulp s2 s2)
  predicate steepest (w h: int) (z: int -> real) (nd: real) (x y n: int) =
    1 <= n <= 8 /\ usable w h z nd x y n /\ fs w z x y n >. 0.0 /\ forall k [fs w z x y k]. 1 <= k <= 8 -> usable w h z nd x y k -> fs w z x y k <=. fs w z x y n
  (* some facet has a lower neighbour *)
  predicate facetflow (w h: int) (z: int -> real) (nd: real) (x y: int) =
    not isedge w h x y /\ exists n. 1 <= n <= 8 /\ usable w h z nd x y n /\ (zz w z x y (fa n) <. zz w z x y 0 \/ zz w z x y (fb n) <. zz w z x y 0)
  function quarter : real = 3.1415926535897931 /. 4.0
  predicate near (a b: real) = -. 0.0000002 <=. a -. b <=. 0.0000002
  function amount (q: real) : real = if q = -. 1.0 then 0.0 else q
  predicate takes (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y k: int) (a: real) =
    near (amount (pv p (idx w x y) k)) a /\ 0.0 <=. amount (pv p (idx w x y) k) <=. 1.0 /\ (amount (pv p (idx w x y) k) >. 0.0 -> lower 8 w h z nd x y k)
  predicate splits (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y n: int) =
    steepest w h z nd x y n /\ (forall k [pv p (idx w x y) k]. 1 <= k <= 8 -> k <> fa n -> k <> fb n -> pv p (idx w x y) k = -. 1.0) /\
    takes w h z nd p x y (fa n) (1.0 -. quotl (fr w z x y n) quarter) /\ takes w h z nd p x y (fb n) (quotl (fr w z x y n) quarter)
  predicate splits_some (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) = exists n. splits w h z nd p x y n
  predicate tb_law (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    if z (idx w x y) = nd then pv p (idx w x y) 0 = -. 2.0 /\ quiet w p x y
    else if facetflow w h z nd x y then pv p (idx w x y) 0 = 0.0 /\ splits_some w h z nd p x y
    else pv p (idx w x y) 0 = -. 1.0 /\ quiet w p x y
  predicate tb_upto (w h: int) (z: int -> real) (nd: real) (p: int -> real) (x y: int) =
    forall i j [idx w i j]. ing w h i j -> j < y \/ j = y /\ i < x -> tb_law w h z nd p i j
  predicate tb_all (w h: int) (z: int -> real) (nd: real) (p: int -> real) =
    forall i j [idx w i j]. ing w h i j -> tb_law w h z nd p i j
  let ghost tb_frame (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (i j: int) : unit
    requires { agree (idx w i j) p q } requires { tb_law w h z nd p i j }
    ensures { tb_law w h z nd q i j }
  = assert { pv q (idx w i j) 0 = pv p (idx w i j) 0 };
    assert { quiet w p i j -> quiet w q i j };
    if pure { splits_some w h z nd p i j } then begin
      let ghost n = any int ensures { splits w h z nd p i j result } in
      assert { forall k. 1 <= k <= 8 -> pv q (idx w i j) k = pv p (idx w i j) k };
      assert { takes w h z nd q i j (fa n) (1.0 -. quotl (fr w z i j n) quarter) };
      assert { takes w h z nd q i j (fb n) (quotl (fr w z i j n) quarter) };
      assert { splits w h z nd q i j n };
      assert { splits_some w h z nd q i j }
    end
  let ghost tb_step (w h: int) (z: int -> real) (nd: real) (p q: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { tb_upto w h z nd p x y } requires { frame1 (idx w x y) p q }
    requires { tb_law w h z nd q x y }
    ensures { tb_upto w h z nd q (x+1) y }
  = let lemma aux (i j: int) : unit
      requires { ing w h i j } requires { j < y \/ j = y /\ i < x } ensures { tb_law w h z nd q i j }
    = agree_off w h p q x y i j; tb_frame w h z nd p q i j in
    ()
  let ghost unit_arith () : unit ensures { mulp 1.0 1.0 = 1.0 } ensures { sqrtl 2.0 >. 0.0 } ensures { sqrtl 2.0 <> 0.0 } ensures { forall a [quotl a 1.0]. quotl a 1.0 = a }
  = use_mulp 1.0 1.0;
    let lemma q1 (a: real) : unit ensures { quotl a 1.0 = a } = use_quot a 1.0 in ()
  (* what the slope of a facet says *)
  let ghost facet (w: int) (z: int -> real) (x y n: int) : unit
    requires { 1 <= n <= 8 }
    ensures { 0.0 <=. fr w z x y n <=. dangl }
    ensures { fs w z x y n >. 0.0 -> fr w z x y n = 0.0 -> zz w z x y (fa n) <. zz w z x y 0 }
    ensures { fs w z x y n >. 0.0 -> fr w z x y n = dangl -> zz w z x y (fb n) <. zz w z x y 0 }
    ensures { fs w z x y n >. 0.0 -> fr w z x y n <> 0.0 -> fr w z x y n <> dangl -> zz w z x y (fa n) <. zz w z x y 0 /\ zz w z x y (fb n) <. zz w z x y 0 /\ epsl <=. fr w z x y n <=. dangl -. epsl }
    ensures { zz w z x y (fa n) <. zz w z x y 0 \/ zz w z x y (fb n) <. zz w z x y 0 -> fs w z x y n >. 0.0 }
  = unit_arith ();
    let ghost s1 = zz w z x y 0 -. zz w z x y (fa n) in let ghost s2 = zz w z x y (fa n) -. zz w z x y (fb n) in
    use_quot (zz w z x y 0 -. zz w z x y (fb n)) (sqrtl 2.0);
    use_mulp s1 s1; use_mulp s2 s2;
    let ghost d = zz w z x y 0 -. zz w z x y (fb n) in
    assert { quotl d (sqrtl 2.0) *. sqrtl 2.0 = d };
    assert { quotl d (sqrtl 2.0) >. 0.0 <-> d >. 0.0 };
    assert { s1 >. 0.0 -> mulp s1 s1 >. 0.0 };
    assert { s1 >. 0.0 -> sqrtl (mulp s1 s1 +. mulp s2 s2) >. 0.0 };
    assert { ang w z x y n = atan2l s2 s1 }
  (* the share of a direction at angle r, computed in single precision *)
  let ghost share_err (r f: real) : unit
    requires { epsl <=. r <=. dangl -. epsl } requires { f = to_f32 r }
    ensures { 0.0 <. f <. dangl } ensures { 0.0 <=. quotl f quarter <=. 1.0 } ensures { near (to_f32 (quotl f quarter)) (quotl r quarter) } ensures { near (to_f32 (1.0 -. quotl f quarter)) (1.0 -. quotl r quarter) }
    ensures { 0.0 <=. to_f32 (quotl f quarter) <=. 1.0 } ensures { 0.0 <=. to_f32 (1.0 -. quotl f quarter) <=. 1.0 }
  = use_quot f quarter; use_quot r quarter
  let ghost share_flip (r f g: real) : unit
    requires { epsl <=. r <=. dangl -. epsl } requires { f = to_f32 r } requires { g = to_f32 (quarter -. f) }
    ensures { 0.0 <. g <. dangl } ensures { 0.0 <=. quotl g quarter <=. 1.0 } ensures { near (to_f32 (quotl g quarter)) (1.0 -. quotl r quarter) } ensures { near (to_f32 (1.0 -. quotl g quarter)) (quotl r quarter) }
    ensures { 0.0 <=. to_f32 (quotl g quarter) <=. 1.0 } ensures { 0.0 <=. to_f32 (1.0 -. quotl g quarter) <=. 1.0 }
  = use_quot f quarter; use_quot r quarter; use_quot g quarter
  function turned (n: int) (r: real) : real = if n = 2 || n = 4 || n = 6 || n = 8 then (if r = 0.0 then dangl else if r = dangl then 0.0 else to_f32 (quarter -. r)) else r
  function wrap (n: int) : int = if n = 9 then 1 else n
  let ghost tb_done (w h: int) (z: int -> real) (nd: real) (q: int -> real) (x y n: int) (f: real) : unit
    requires { not isedge w h x y /\ ing w h x y } requires { z (idx w x y) <> nd } requires { steepest w h z nd x y n }
    requires { f = turned n (to_f32 (fr w z x y n)) } requires { pv q (idx w x y) 0 = 0.0 }
    requires { forall k [pv q (idx w x y) k]. 1 <= k <= 8 -> k <> n -> k <> wrap (n+1) -> pv q (idx w x y) k = -. 1.0 }
    requires { f = 0.0 -> pv q (idx w x y) n = 1.0 /\ pv q (idx w x y) (wrap (n+1)) = -. 1.0 }
    requires { f <> 0.0 -> f = dangl -> pv q (idx w x y) n = -. 1.0 /\ pv q (idx w x y) (wrap (n+1)) = 1.0 }
    requires { f <> 0.0 -> f <> dangl -> pv q (idx w x y) n = to_f32 (1.0 -. quotl f quarter) /\ pv q (idx w x y) (wrap (n+1)) = to_f32 (quotl f quarter) }
    ensures { tb_law w h z nd q x y }
  = facet w z x y n;
    let ghost r = fr w z x y n in
    use_quot r quarter;
    assert { facetflow w h z nd x y };
    assert { zz w z x y 0 = z (idx w x y) };
    assert { zz w z x y (fa n) <. zz w z x y 0 -> lower 8 w h z nd x y (fa n) };
    assert { zz w z x y (fb n) <. zz w z x y 0 -> lower 8 w h z nd x y (fb n) };
    if pure { r <> 0.0 /\ r <> dangl } then begin
      share_err r (to_f32 r); share_flip r (to_f32 r) (to_f32 (quarter -. to_f32 r))
    end;
    assert { takes w h z nd q x y (fa n) (1.0 -. quotl r quarter) };
    assert { takes w h z nd q x y (fb n) (quotl r quarter) };
    assert { splits w h z nd q x y n };
    assert { splits_some w h z nd q x y }
  (* no facet drains the cell *)
  let ghost tb_none (w h: int) (z: int -> real) (nd: real) (q: int -> real) (x y: int) : unit
    requires { ing w h x y } requires { z (idx w x y) <> nd } requires { pv q (idx w x y) 0 = -. 1.0 } requires { quiet w q x y }
    requires { forall k [fs w z x y k]. 1 <= k <= 8 -> usable w h z nd x y k -> fs w z x y k <=. 0.0 }
    ensures { tb_law w h z nd q x y }
  = let lemma aux (n: int) : unit requires { 1 <= n <= 8 } requires { usable w h z nd x y n } ensures { not (zz w z x y (fa n) <. zz w z x y 0 \/ zz w z x y (fb n) <. zz w z x y 0) }
    = facet w z x y n; assert { fs w z x y n <=. 0.0 } in
    assert { not facetflow w h z nd x y }
end

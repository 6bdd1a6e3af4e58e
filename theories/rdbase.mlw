(* Base theories: index arithmetic, vectors, rasters, queues. *)
module Idx
  use int.Int
  use int.ComputerDivision as CD
  (* abstract index arithmetic; realised (so not axiomatised without proof) in IdxProof *)
  function idx (w x y: int) : int
  function ix (w i: int) : int
  function iy (w i: int) : int
  function area (w h: int) : int
  axiom idx_rng: forall w h x y [idx w x y, area w h]. 0 <= x < w /\ 0 <= y < h -> 0 <= idx w x y < area w h
  axiom ix_idx: forall w x y [idx w x y]. 0 <= x < w -> ix w (idx w x y) = x
  axiom iy_idx: forall w x y [idx w x y]. 0 <= x < w -> iy w (idx w x y) = y
  axiom ixy_rng: forall w h i [ix w i, area w h|iy w i, area w h]. 0 <= i < area w h -> 0 <= w -> 0 <= h -> 0 <= ix w i < w /\ 0 <= iy w i < h
  axiom idx_ixy: forall w i [ix w i|iy w i]. 0 < w -> idx w (ix w i) (iy w i) = i
  axiom area_nn: forall w h [area w h]. 0 <= w -> 0 <= h -> area w h >= 0
  axiom area_ge: forall w h [area w h]. 1 <= w -> 1 <= h -> area w h >= w /\ area w h >= h
  axiom area_pos: forall w h [area w h]. 0 <= w -> 0 <= h -> 0 < area w h -> 0 < w /\ 0 < h
  (* definitions, revealed on demand *)
  val use_idx (w x y: int) : unit ensures { idx w x y = y*w + x }
  val use_area (w h: int) : unit ensures { area w h = w*h }
  val use_ixy (w i: int) : unit requires { w > 0 /\ 0 <= i } ensures { ix w i = CD.mod i w /\ iy w i = CD.div i w }
end
module IdxProof
  use int.Int
  use int.ComputerDivision
  use int.EuclideanDivision as E
  function idx (w x y: int) : int = y*w + x
  function ix (w i: int) : int = if w > 0 then E.mod i w else 0
  function iy (w i: int) : int = if w > 0 then E.div i w else 0
  function area (w h: int) : int = w*h
  let lemma mul_mono (a b w: int) : unit
    requires { a <= b /\ 0 <= w } ensures { a*w <= b*w }
  = assert { (b-a)*w >= 0 }; assert { (b-a)*w = b*w - a*w }
  let lemma mul_le (w y h: int) : unit
    requires { 0 <= w /\ y < h } ensures { y*w + w <= h*w }
  = mul_mono (y+1) h w; assert { (y+1)*w = y*w + w }
  let lemma div_unique (w x y: int) : unit
    requires { 0 <= x < w } ensures { E.div (y*w+x) w = y /\ E.mod (y*w+x) w = x }
  = let ghost d = E.div (y*w+x) w in
    assert { y*w+x = w*d + E.mod (y*w+x) w };
    assert { 0 <= E.mod (y*w+x) w < w };
    assert { (y-d)*w = E.mod (y*w+x) w - x };
    if y - d >= 1 then (mul_mono 1 (y-d) w; absurd)
    else if y - d <= -1 then (mul_mono (y-d) (-1) w; absurd)
  lemma div_rng: forall w h i. 0 < w -> 0 <= i < w*h -> 0 <= E.div i w < h
  let lemma area_ge0 (w h: int) : unit requires { 1 <= w /\ 1 <= h } ensures { w*h >= w /\ w*h >= h } = mul_mono 1 h w; mul_mono 1 w h
  let use_idx (w x y: int) : unit ensures { idx w x y = y*w + x } = ()
  let use_area (w h: int) : unit ensures { area w h = w*h } = ()
  let use_ixy (w i: int) : unit requires { w > 0 /\ 0 <= i } ensures { ix w i = mod i w /\ iy w i = div i w } = ()
  clone Idx with function idx = idx, function ix = ix, function iy = iy, function area = area,
     lemma idx_rng, lemma ix_idx, lemma iy_idx, lemma ixy_rng, lemma idx_ixy, lemma area_nn, lemma area_ge, lemma area_pos, val use_idx = use_idx, val use_area = use_area, val use_ixy = use_ixy
end

module Base
  use int.Int
  use int.ComputerDivision as CD
  use real.RealInfix
  use map.Map
  use export Idx

  exception CppThrow

  (* ---------------- machine integer conversions: the identity on representable values *)
  function u32_far (x: int) : int
  function to_u32 (x: int) : int =
    if 0 <= x < 0x100000000 then x
    else if 0x100000000 <= x < 0x200000000 then x - 0x100000000
    else if -0x100000000 <= x < 0 then x + 0x100000000 else u32_far x
  function u64_far (x: int) : int
  function to_u64 (x: int) : int =
    if 0 <= x < 0x10000000000000000 then x
    else if 0x10000000000000000 <= x < 0x20000000000000000 then x - 0x10000000000000000
    else if -0x10000000000000000 <= x < 0 then x + 0x10000000000000000 else u64_far x
  function i32_far (x: int) : int
  function to_i32 (x: int) : int =
    if -0x80000000 <= x < 0x80000000 then x
    else if 0x80000000 <= x < 0x180000000 then x - 0x100000000
    else if -0x180000000 <= x < -0x80000000 then x + 0x100000000 else i32_far x
  function i64_far (x: int) : int
  function to_i64 (x: int) : int = if -0x8000000000000000 <= x < 0x8000000000000000 then x else
     if 0x8000000000000000 <= x < 0x10000000000000000 then x - 0x10000000000000000 else i64_far x
  function u8_far (x: int) : int
  axiom u8_far_rng: forall x [u8_far x]. 0 <= u8_far x <= 255
  function to_u8 (x: int) : int = if 0 <= x <= 255 then x else if -256 <= x < 0 then x + 256 else u8_far x
  function i8_far (x: int) : int
  axiom i8_far_rng: forall x [i8_far x]. -128 <= i8_far x <= 127
  function to_i8 (x: int) : int = if -128 <= x <= 127 then x else if 128 <= x <= 255 then x - 256 else i8_far x
  function u16_far (x: int) : int
  axiom u16_far_rng: forall x [u16_far x]. 0 <= u16_far x <= 65535
  function to_u16 (x: int) : int = if 0 <= x <= 65535 then x else if -65536 <= x < 0 then x + 65536 else u16_far x
  function i16_far (x: int) : int
  axiom i16_far_rng: forall x [i16_far x]. -32768 <= i16_far x <= 32767
  function to_i16 (x: int) : int = if -32768 <= x <= 32767 then x else i16_far x
  val to_u32 (x: int) : int ensures { result = to_u32 x }
  val to_u64 (x: int) : int ensures { result = to_u64 x }
  val to_i32 (x: int) : int ensures { result = to_i32 x }
  val to_i64 (x: int) : int ensures { result = to_i64 x }
  val to_u8 (x: int) : int ensures { result = to_u8 x }
  val to_i8 (x: int) : int ensures { result = to_i8 x }
  val to_u16 (x: int) : int ensures { result = to_u16 x }
  val to_i16 (x: int) : int ensures { result = to_i16 x }
  (* checked signed 32-bit arithmetic: overflow is an obligation *)
  val chk_i32 (x: int) : int requires { [@expl:signed overflow] -0x80000000 <= x < 0x80000000 } ensures { result = x }

  function cdiv (a b: int) : int = CD.div a b
  function cmod (a b: int) : int = CD.mod a b
  val cdiv (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.div a b }
  val cmod (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.mod a b }
  function shl (a b: int) : int
  function shr (a b: int) : int
  function band (a b: int) : int
  function bor (a b: int) : int
  function bxor (a b: int) : int
  function bnot (a: int) : int
  val shl (a b: int) : int ensures { result = shl a b }
  val shr (a b: int) : int ensures { result = shr a b }
  val band (a b: int) : int ensures { result = band a b }
  val bor (a b: int) : int ensures { result = bor a b }
  val bxor (a b: int) : int ensures { result = bxor a b }
  val bnot (a: int) : int ensures { result = bnot a }
  axiom band_1: forall a [band a 1]. a >= 0 -> band a 1 = CD.mod a 2
  let iabs (x: int) : int ensures { result = if x >= 0 then x else -x } = if x >= 0 then x else -x
  function imaxl (a b: int) : int = if a >= b then a else b
  function iminl (a b: int) : int = if a <= b then a else b
  let imax (a b: int) : int ensures { result = imaxl a b } = if a >= b then a else b
  let imin (a b: int) : int ensures { result = iminl a b } = if a <= b then a else b
  val beq (a b: bool) : bool ensures { result <-> a = b }
  val bne (a b: bool) : bool ensures { result <-> a <> b }

  (* ---------------- floating point values are treated as mathematical reals *)
  val req (a b: real) : bool ensures { result <-> a = b }
  val rne (a b: real) : bool ensures { result <-> a <> b }
  function rmaxl (a b: real) : real = if a <. b then b else a
  function rminl (a b: real) : real = if b <. a then b else a
  function rabsl (a: real) : real = if a <. 0.0 then -. a else a
  val rmax (a b: real) : real ensures { result = rmaxl a b }
  val rmin (a b: real) : real ensures { result = rminl a b }
  val rabs (a: real) : real ensures { result = rabsl a }
  function rdivl (a b: real) : real = a /. b
  val rdiv (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = a /. b }
  function to_f32 (x: real) : real
  axiom to_f32_mono: forall a b [to_f32 a, to_f32 b]. a <=. b -> to_f32 a <=. to_f32 b
  val to_f32 (x: real) : real ensures { result = to_f32 x }
  function i2rl (i: int) : real
  axiom i2r_mono: forall a b [i2rl a, i2rl b]. a < b -> i2rl a <. i2rl b
  axiom i2r_0: i2rl 0 = 0.0
  axiom i2r_1: i2rl 1 = 1.0
  axiom i2r_add: forall a b [i2rl (a+b)]. i2rl (a+b) = i2rl a +. i2rl b
  axiom i2r_neg: forall a [i2rl (-a)]. i2rl (-a) = -. i2rl a
  val i2r (i: int) : real ensures { result = i2rl i }
  function truncl (r: real) : int
  axiom trunc_int: forall i [truncl (i2rl i)]. truncl (i2rl i) = i
  axiom trunc_pos: forall r [truncl r]. 0.0 <=. r -> i2rl (truncl r) <=. r <. i2rl (truncl r) +. 1.0
  axiom trunc_neg: forall r [truncl r]. r <=. 0.0 -> i2rl (truncl r) -. 1.0 <. r <=. i2rl (truncl r)
  val f2i_i32 (r: real) : int requires { [@expl:float to int range] -2147483648.0 <=. r <=. 2147483647.0 } ensures { result = truncl r }
  val f2i_u32 (r: real) : int requires { [@expl:float to int range] 0.0 <=. r <=. 4294967295.0 } ensures { result = truncl r }
  val f2i_i64 (r: real) : int requires { [@expl:float to int range] -9223372036854775808.0 <=. r <=. 9223372036854775807.0 } ensures { result = truncl r }
  val f2i_u64 (r: real) : int requires { [@expl:float to int range] 0.0 <=. r <=. 18446744073709551615.0 } ensures { result = truncl r }
  val f2i_u8 (r: real) : int requires { [@expl:float to int range] 0.0 <=. r <=. 255.0 } ensures { result = truncl r }
  val f2i_i8 (r: real) : int requires { [@expl:float to int range] -128.0 <=. r <=. 127.0 } ensures { result = truncl r }
  let constant sqrt2l : real = 1.414213562373095048801688724209698078569671875376948
  val constant flt_maxl : real
  axiom flt_max_big: flt_maxl >. 1.0e30
  function sqrtl (x: real) : real
  axiom sqrt_pos: forall x [sqrtl x]. x >. 0.0 -> sqrtl x >. 0.0
  axiom sqrt_nn: forall x [sqrtl x]. x >=. 0.0 -> sqrtl x >=. 0.0 /\ sqrtl x *. sqrtl x = x
  val c_sqrt (x: real) : real requires { x >=. 0.0 } ensures { result = sqrtl x }
  function powl (x y: real) : real
  axiom pow_pos: forall x y [powl x y]. x >. 0.0 -> powl x y >. 0.0
  axiom pow_1: forall x [powl x 1.0]. x >. 0.0 -> powl x 1.0 = x
  axiom pow_2: forall x [powl x 2.0]. powl x 2.0 = x *. x
  val c_pow (x y: real) : real ensures { result = powl x y }
  function atanl (x: real) : real
  function atan2l (y x: real) : real
  function logl (x: real) : real
  function sinl (x: real) : real
  function cosl (x: real) : real
  function tanl (x: real) : real
  function expl (x: real) : real
  function floorl (x: real) : real
  function ceill (x: real) : real
  function fmodl (x y: real) : real
  val c_atan (x: real) : real ensures { result = atanl x }
  val c_atan2 (y x: real) : real ensures { result = atan2l y x }
  val c_log (x: real) : real requires { x >. 0.0 } ensures { result = logl x }
  val c_sin (x: real) : real ensures { result = sinl x }
  val c_cos (x: real) : real ensures { result = cosl x }
  val c_tan (x: real) : real ensures { result = tanl x }
  val c_exp (x: real) : real ensures { result = expl x }
  val c_floor (x: real) : real ensures { result = floorl x }
  val c_ceil (x: real) : real ensures { result = ceill x }
  val c_fmod (x y: real) : real ensures { result = fmodl x y }
  (* nextafter: the order-theoretic facts of the IEEE function, on reals *)
  function nextl (x y: real) : real
  axiom next_up: forall x y [nextl x y]. x <. y -> x <. nextl x y <=. y
  axiom next_dn: forall x y [nextl x y]. x >. y -> x >. nextl x y >=. y
  axiom next_eq: forall x [nextl x x]. nextl x x = x
  axiom next_gap: forall x y z [nextl x z, nextl y z]. x <=. y -> y <. z -> nextl x z <=. nextl y z
  val constant infl : real
  axiom inf_big: infl >. flt_maxl
  axiom next_room: forall x [nextl x infl]. x <. infl -> nextl x infl <. infl
  val c_nextafter (x y: real) : real ensures { result = nextl x y }
  val c_isnan (x: real) : bool ensures { not result }
  val c_rand (a b: real) : real ensures { a <. b -> a <. result <. b }

  (* ---------------- vectors: std::vector, std::array, ManagedVector storage *)
  type vec 'a = private { mutable elts: int -> 'a; mutable len: int } invariant { 0 <= len }
  val vget (v: vec 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < v.len } ensures { result = v.elts i }
  val vset (v: vec 'a) (i: int) (x: 'a) : unit
    requires { [@expl:index in bounds] 0 <= i < v.len } writes { v.elts } ensures { v.elts = Map.set (old v.elts) i x }
  function vat (v: vec 'a) (i: int) : 'a = v.elts i
  val vlen (v: vec 'a) : int ensures { result = v.len }
  val vec_make (n: int) (x: 'a) : vec 'a requires { 0 <= n } ensures { result.len = n /\ forall i. 0 <= i < n -> result.elts i = x }
  val vec_empty () : vec 'a ensures { result.len = 0 }
  val vec_uninit (n: int) : vec 'a requires { 0 <= n } ensures { result.len = n }
  val vec_range (v: vec 'a) (a b: int) : vec 'a requires { [@expl:range in bounds] 0 <= a <= b <= v.len }
    ensures { result.len = b - a /\ forall i. 0 <= i < b - a -> result.elts i = v.elts (a + i) }
  val vec_copy (v: vec 'a) : vec 'a ensures { result.len = v.len /\ forall i. 0 <= i < v.len -> result.elts i = v.elts i }
  val vec_move (v: vec 'a) : vec 'a writes { v } ensures { result.len = old v.len /\ result.elts = old v.elts /\ v.len = 0 }
  val vec_assign (v u: vec 'a) : unit writes { v } ensures { v.len = u.len /\ v.elts = u.elts }
  val vec_swap (v u: vec 'a) : unit writes { v, u } ensures { v.len = old u.len /\ v.elts = old u.elts /\ u.len = old v.len /\ u.elts = old v.elts }
  val vec_push (v: vec 'a) (x: 'a) : unit writes { v } ensures { v.len = old v.len + 1 /\ v.elts = Map.set (old v.elts) (old v.len) x }
  val vec_pop (v: vec 'a) : unit requires { v.len > 0 } writes { v } ensures { v.len = old v.len - 1 /\ v.elts = old v.elts }
  val vec_clear (v: vec 'a) : unit writes { v } ensures { v.len = 0 }
  val vec_resize_val (v: vec 'a) (n: int) (x: 'a) : unit requires { 0 <= n } writes { v }
    ensures { v.len = n /\ (forall i. 0 <= i < n -> i < old v.len -> v.elts i = old v.elts i) /\ (forall i. old v.len <= i < n -> v.elts i = x) }
  val vec_fill (v: vec 'a) (x: 'a) : unit writes { v } ensures { v.len = old v.len /\ forall i. 0 <= i < v.len -> v.elts i = x }
  (* ManagedVector::resize: storage of a new size has unspecified contents; resizing to the same size is a no-op *)
  val mvec_resize (v: vec 'a) (n: int) : unit requires { 0 <= n } writes { v }
    ensures { v.len = n } ensures { n = old v.len -> v.elts = old v.elts }

  type pair 'a 'b = { p1: 'a; p2: 'b }

  (* ---------------- FIFO queue and stack: sequences with absolute positions [hd, tl) *)
  type queue 'a = private { mutable qel: int -> 'a; mutable hd: int; mutable tl: int } invariant { hd <= tl }
  val queue_new () : queue 'a ensures { result.hd = 0 /\ result.tl = 0 }
  val queue_size (q: queue 'a) : int ensures { result = q.tl - q.hd }
  val queue_empty (q: queue 'a) : bool ensures { result <-> q.tl = q.hd }
  val queue_front (q: queue 'a) : 'a requires { [@expl:queue not empty] q.hd < q.tl } ensures { result = q.qel q.hd }
  val queue_back (q: queue 'a) : 'a requires { [@expl:queue not empty] q.hd < q.tl } ensures { result = q.qel (q.tl - 1) }
  val queue_pop (q: queue 'a) : unit requires { [@expl:queue not empty] q.hd < q.tl } writes { q.hd } ensures { q.hd = old q.hd + 1 }
  val queue_push (q: queue 'a) (x: 'a) : unit writes { q.qel, q.tl } ensures { q.tl = old q.tl + 1 /\ q.qel = Map.set (old q.qel) (old q.tl) x }
  type stack 'a = private { mutable sel: int -> 'a; mutable sp: int } invariant { 0 <= sp }
  val stack_new () : stack 'a ensures { result.sp = 0 }
  val stack_size (q: stack 'a) : int ensures { result = q.sp }
  val stack_empty (q: stack 'a) : bool ensures { result <-> q.sp = 0 }
  val stack_top (q: stack 'a) : 'a requires { [@expl:stack not empty] 0 < q.sp } ensures { result = q.sel (q.sp - 1) }
  val stack_pop (q: stack 'a) : unit requires { [@expl:stack not empty] 0 < q.sp } writes { q.sp } ensures { q.sp = old q.sp - 1 }
  val stack_push (q: stack 'a) (x: 'a) : unit writes { q } ensures { q.sp = old q.sp + 1 /\ q.sel = Map.set (old q.sel) (old q.sp) x }

  (* ---------------- rasters *)
  type a2d 'a = { mutable view_width: int; mutable view_height: int; mutable view_xoff: int; mutable view_yoff: int;
                  mutable no_data: 'a; mutable num_data_cells: int; data: vec 'a; nshift: vec int }
  function d8x (n: int) : int = if n = 1 || n = 2 || n = 8 then -1 else if n = 4 || n = 5 || n = 6 then 1 else 0
  function d8y (n: int) : int = if n = 2 || n = 3 || n = 4 then -1 else if n = 6 || n = 7 || n = 8 then 1 else 0
  function d4x (n: int) : int = if n = 1 then -1 else if n = 3 then 1 else 0
  function d4y (n: int) : int = if n = 2 then -1 else if n = 4 then 1 else 0
  function d8_inverse (n: int) : int = if n = 0 then 0 else if n <= 4 then n + 4 else n - 4
  function d4_inverse (n: int) : int = if n = 0 then 0 else if n <= 2 then n + 2 else n - 2
  predicate ing (w h x y: int) = 0 <= x < w /\ 0 <= y < h
  predicate isedge (w h x y: int) = x = 0 \/ y = 0 \/ x = w - 1 \/ y = h - 1
  predicate dims_ok (w h: int) = 0 <= w <= 2147483645 /\ 0 <= h <= 2147483645 /\ area w h <= 4294967294
  predicate nshift_ok (v: vec int) (w: int) =
    v.len = 9 /\ v.elts 0 = 0 /\ v.elts 1 = -1 /\ v.elts 2 = -w-1 /\ v.elts 3 = -w /\ v.elts 4 = -w+1 /\ v.elts 5 = 1 /\ v.elts 6 = w+1 /\ v.elts 7 = w /\ v.elts 8 = w-1
  predicate valid (a: a2d 'a) = dims_ok a.view_width a.view_height /\ a.data.len = area a.view_width a.view_height /\ nshift_ok a.nshift a.view_width
  (* cell value / index shorthands *)
  function cell (a: a2d 'a) (x y: int) : 'a = a.data.elts (idx a.view_width x y)
  predicate samedim (a: a2d 'a) (b: a2d 'b) = a.view_width = b.view_width /\ a.view_height = b.view_height
  (* ---------------- rasters with nine numbers for each cell *)
  type a3d 'a = { mutable pw: int; mutable ph: int; mutable pxoff: int; mutable pyoff: int; mutable pno_data: 'a; mutable pnum_data_cells: int; pdata: vec 'a }
  predicate valid3 (a: a3d 'a) = dims_ok a.pw a.ph /\ a.pdata.len = 9 * area a.pw a.ph
  function pcell (a: a3d 'a) (i n: int) : 'a = a.pdata.elts (9*i+n)
  val a2d_copy (a: a2d 'a) : a2d 'a
    ensures { result.view_width = a.view_width /\ result.view_height = a.view_height /\ result.view_xoff = a.view_xoff /\ result.view_yoff = a.view_yoff }
    ensures { result.no_data = a.no_data /\ result.num_data_cells = a.num_data_cells }
    ensures { result.data.len = a.data.len /\ result.data.elts = a.data.elts /\ result.nshift.len = a.nshift.len /\ result.nshift.elts = a.nshift.elts }
  val a2d_assign (a b: a2d 'a) : unit writes { a, a.data, a.nshift }
    ensures { a.view_width = b.view_width /\ a.view_height = b.view_height /\ a.view_xoff = b.view_xoff /\ a.view_yoff = b.view_yoff }
    ensures { a.no_data = b.no_data /\ a.num_data_cells = b.num_data_cells }
    ensures { a.data.len = b.data.len /\ a.data.elts = b.data.elts /\ a.nshift.len = b.nshift.len /\ a.nshift.elts = b.nshift.elts }
end

(* std::priority_queue with a strict weak order gt ("comes later"): a multiset seen through membership and size *)
module PQ
  use int.Int
  type elt
  predicate gt elt elt
  type pqs                                     (* abstract state *)
  type pq = private { mutable st: pqs }
  predicate mem elt pqs
  function size pqs : int
  function top pqs : elt
  axiom size_nn: forall s [size s]. 0 <= size s
  axiom mem_size: forall s e [mem e s]. mem e s -> 0 < size s
  axiom top_mem: forall s [top s]. 0 < size s -> mem (top s) s
  axiom top_min: forall s e [mem e s, top s]. mem e s -> not (gt (top s) e)
  val pq_new () : pq ensures { size result.st = 0 }
  val pq_size (q: pq) : int ensures { result = size q.st }
  val pq_empty (q: pq) : bool ensures { result <-> size q.st = 0 }
  val pq_top (q: pq) : elt requires { [@expl:queue not empty] 0 < size q.st } ensures { result = top q.st }
  val pq_pop (q: pq) : unit requires { [@expl:queue not empty] 0 < size q.st } writes { q }
    ensures { size q.st = size (old q.st) - 1 }
    ensures { forall e [mem e q.st]. mem e q.st -> mem e (old q.st) }
    ensures { forall e [mem e (old q.st)]. mem e (old q.st) -> e = top (old q.st) \/ mem e q.st }
  val pq_push (q: pq) (x: elt) : unit writes { q }
    ensures { size q.st = size (old q.st) + 1 }
    ensures { forall e [mem e q.st|mem e (old q.st)]. mem e q.st <-> (e = x \/ mem e (old q.st)) }
  val pq_assign (q p: pq) : unit writes { q } ensures { q.st = p.st }
end

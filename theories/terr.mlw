(* Terrain attributes of Horn 1981 and of Zevenbergen and Thorne 1987 *)
module TERR
  use int.Int
  use real.RealInfix
  use rdbase.Base
  (* the product of reals: all that is used of it *)
  val function mulp (a b: real) : real
  axiom mulp_comm: forall a b [mulp a b]. mulp a b = mulp b a
  axiom mulp_deg: forall y x [mulp (180.0 /. 3.1415926535897931) (atan2l y x)]. mulp (180.0 /. 3.1415926535897931) (atan2l y x) = (180.0 /. 3.1415926535897931) *. atan2l y x
  axiom mulp_sq: forall a [mulp a a]. mulp a a >=. 0.0 /\ (a <> 0.0 -> mulp a a >. 0.0)
  function quotl (a b: real) : real
  val quot (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = quotl a b }
  constant cell_dx : real
  axiom dx_pos: cell_dx >. 0.0
  constant cell_dy : real
  axiom dy_pos: cell_dy >. 0.0
  constant pil : real = 3.141592653589793115997963468544185161590576171875
  axiom atan2_range: forall y x [atan2l y x]. -. 3.1415926535897931 <=. atan2l y x <=. 3.1415926535897931
  (* elevation of the neighbour at (i,j), the cell's own where that is outside or NoData; then scaled *)
  function nb1 (e: int -> real) (nd: real) (w h x y: int) (i j: int) : real
  axiom nb1_def: forall e nd w h x y i j [nb1 e nd w h x y i j]. nb1 e nd w h x y i j = if ing w h (x+i) (y+j) && e (idx w (x+i) (y+j)) <> nd then e (idx w (x+i) (y+j)) else e (idx w x y)
  function nb (e: int -> real) (nd: real) (w h x y: int) (s: real) (i j: int) : real
  axiom nb_def: forall e nd w h x y s i j [nb e nd w h x y s i j, nb1 e nd w h x y i j]. nb e nd w h x y s i j = mulp (nb1 e nd w h x y i j) s
  function dzdx (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom dzdx_def: forall e nd w h x y s [dzdx e nd w h x y s, nb e nd w h x y s 0 0]. dzdx e nd w h x y s =
    quotl (((nb e nd w h x y s 1 (-1) +. 2.0 *. nb e nd w h x y s 1 0 +. nb e nd w h x y s 1 1) -. (nb e nd w h x y s (-1) (-1) +. 2.0 *. nb e nd w h x y s (-1) 0 +. nb e nd w h x y s (-1) 1)) /. 8.0) cell_dx
  function dzdy (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom dzdy_def: forall e nd w h x y s [dzdy e nd w h x y s, nb e nd w h x y s 0 0]. dzdy e nd w h x y s =
    quotl (((nb e nd w h x y s (-1) 1 +. 2.0 *. nb e nd w h x y s 0 1 +. nb e nd w h x y s 1 1) -. (nb e nd w h x y s (-1) (-1) +. 2.0 *. nb e nd w h x y s 0 (-1) +. nb e nd w h x y s 1 (-1))) /. 8.0) cell_dy
  function riserun (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = sqrtl (mulp (dzdx e nd w h x y s) (dzdx e nd w h x y s) +. mulp (dzdy e nd w h x y s) (dzdy e nd w h x y s))
  function percent (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = riserun e nd w h x y s *. 100.0
  function radian (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = atanl (riserun e nd w h x y s)
  function degree (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = radian e nd w h x y s *. 180.0 /. 3.1415926535897931
  function aspect (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = let a = mulp (180.0 /. 3.1415926535897931) (atan2l (dzdy e nd w h x y s) (-. dzdx e nd w h x y s)) in
    if a <. 0.0 then 90.0 -. a else if a >. 90.0 then 450.0 -. a else 90.0 -. a
  function zD (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom zD_def: forall e nd w h x y s [zD e nd w h x y s, nb e nd w h x y s 0 0]. zD e nd w h x y s =
    quotl (quotl ((nb e nd w h x y s (-1) 0 +. nb e nd w h x y s 1 0) /. 2.0 -. nb e nd w h x y s 0 0) cell_dx) cell_dx
  function zE (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom zE_def: forall e nd w h x y s [zE e nd w h x y s, nb e nd w h x y s 0 0]. zE e nd w h x y s =
    quotl (quotl ((nb e nd w h x y s 0 (-1) +. nb e nd w h x y s 0 1) /. 2.0 -. nb e nd w h x y s 0 0) cell_dx) cell_dx
  function zF (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom zF_def: forall e nd w h x y s [zF e nd w h x y s, nb e nd w h x y s 0 0]. zF e nd w h x y s =
    quotl (quotl ((-. nb e nd w h x y s (-1) (-1) +. nb e nd w h x y s 1 (-1) +. nb e nd w h x y s (-1) 1 -. nb e nd w h x y s 1 1) /. 4.0) cell_dx) cell_dx
  function zG (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom zG_def: forall e nd w h x y s [zG e nd w h x y s, nb e nd w h x y s 0 0]. zG e nd w h x y s =
    quotl ((-. nb e nd w h x y s (-1) 0 +. nb e nd w h x y s 1 0) /. 2.0) cell_dx
  function zH (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  axiom zH_def: forall e nd w h x y s [zH e nd w h x y s, nb e nd w h x y s 0 0]. zH e nd w h x y s =
    quotl ((nb e nd w h x y s 0 (-1) -. nb e nd w h x y s 0 1) /. 2.0) cell_dx
  function curvature (e: int -> real) (nd: real) (w h x y: int) (s: real) : real = (-. 200.0) *. (zD e nd w h x y s +. zE e nd w h x y s)
  function plan0 (d e f g h: real) : real = if g = 0.0 && h = 0.0 then 0.0 else quotl ((-. 2.0) *. (mulp (mulp d h) h +. mulp (mulp e g) g -. mulp (mulp f g) h)) (mulp g g +. mulp h h) *. 100.0
  function prof0 (d e f g h: real) : real = if g = 0.0 && h = 0.0 then 0.0 else quotl (2.0 *. (mulp (mulp d g) g +. mulp (mulp e h) h +. mulp (mulp f g) h)) (mulp g g +. mulp h h) *. 100.0
  function planform (e: int -> real) (nd: real) (w h x y: int) (s: real) : real =
    plan0 (zD e nd w h x y s) (zE e nd w h x y s) (zF e nd w h x y s) (zG e nd w h x y s) (zH e nd w h x y s)
  function profile (e: int -> real) (nd: real) (w h x y: int) (s: real) : real =
    prof0 (zD e nd w h x y s) (zE e nd w h x y s) (zF e nd w h x y s) (zG e nd w h x y s) (zH e nd w h x y s)

  (* function values: what calling through a pointer to one of the attribute functions gives *)
  type fptr
  function fpv (f: fptr) (e: int -> real) (nd: real) (w h x y: int) (s: real) : real
  val fp_call (f: fptr) (a: a2d real) (x y: int) (s: real) : real
    requires { valid a /\ ing a.view_width a.view_height x y } ensures { result = fpv f a.data.elts a.no_data a.view_width a.view_height x y s }
  val constant fp_slope_riserun : fptr
  axiom fp1: forall e nd w h x y s [fpv fp_slope_riserun e nd w h x y s]. fpv fp_slope_riserun e nd w h x y s = riserun e nd w h x y s
  val constant fp_slope_percent : fptr
  axiom fp2: forall e nd w h x y s [fpv fp_slope_percent e nd w h x y s]. fpv fp_slope_percent e nd w h x y s = percent e nd w h x y s
  val constant fp_slope_radian : fptr
  axiom fp3: forall e nd w h x y s [fpv fp_slope_radian e nd w h x y s]. fpv fp_slope_radian e nd w h x y s = radian e nd w h x y s
  val constant fp_slope_degree : fptr
  axiom fp4: forall e nd w h x y s [fpv fp_slope_degree e nd w h x y s]. fpv fp_slope_degree e nd w h x y s = degree e nd w h x y s
  val constant fp_terrain_aspect : fptr
  axiom fp5: forall e nd w h x y s [fpv fp_terrain_aspect e nd w h x y s]. fpv fp_terrain_aspect e nd w h x y s = aspect e nd w h x y s
  val constant fp_terrain_curvature : fptr
  axiom fp6: forall e nd w h x y s [fpv fp_terrain_curvature e nd w h x y s]. fpv fp_terrain_curvature e nd w h x y s = curvature e nd w h x y s
  val constant fp_terrain_planform : fptr
  axiom fp7: forall e nd w h x y s [fpv fp_terrain_planform e nd w h x y s]. fpv fp_terrain_planform e nd w h x y s = planform e nd w h x y s
  val constant fp_terrain_profile : fptr
  axiom fp8: forall e nd w h x y s [fpv fp_terrain_profile e nd w h x y s]. fpv fp_terrain_profile e nd w h x y s = profile e nd w h x y s

  predicate attr_done (f: fptr) (e: int -> real) (nd: real) (w h: int) (s: real) (o: int -> real) (ond: real) (x y: int) =
    forall a b. ing w h a b -> b < y || (b = y && a < x) -> o (idx w a b) = if e (idx w a b) = nd then ond else to_f32 (fpv f e nd w h a b s)
  predicate attr (f: fptr) (e: int -> real) (nd: real) (w h: int) (s: real) (o: int -> real) (ond: real) =
    forall a b [o (idx w a b)]. ing w h a b -> o (idx w a b) = if e (idx w a b) = nd then ond else to_f32 (fpv f e nd w h a b s)
end

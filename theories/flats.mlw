(* Which cells are flat *)
module FLATS
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  (* neighbour n of an interior cell lets it drain: it is lower or NoData *)
  predicate drains (w h: int) (z: int -> real) (nd: real) (x y n: int) =
    z (idx w (x + d8x n) (y + d8y n)) <. z (idx w x y) \/ z (idx w (x + d8x n) (y + d8y n)) = nd
  predicate flat (w h: int) (z: int -> real) (nd: real) (x y: int) =
    not isedge w h x y /\ forall n [d8x n]. 1 <= n <= 8 -> not drains w h z nd x y n
  predicate flat_code (w h: int) (z: int -> real) (nd: real) (f x y: int) =
    if z (idx w x y) = nd then f = -1 else if flat w h z nd x y then f = 1 else f = 0
  predicate flats_upto (w h: int) (z: int -> real) (nd: real) (f: int -> int) (x y: int) =
    forall i j [f (idx w i j)]. ing w h i j -> j < y \/ j = y /\ i < x -> flat_code w h z nd (f (idx w i j)) i j
  let ghost flats_step (w h: int) (z: int -> real) (nd: real) (f g: int -> int) (x y: int) : unit
    requires { ing w h x y } requires { flats_upto w h z nd f x y } requires { forall c. c <> idx w x y -> g c = f c }
    requires { flat_code w h z nd (g (idx w x y)) x y }
    ensures { flats_upto w h z nd g (x+1) y }
  = assert { forall i j. ing w h i j -> idx w i j = idx w x y -> i = x /\ j = y }
end
(* ArcGIS direction codes: powers of two, clockwise from east *)
module ARC
  use int.Int
  use rdbase.Base
  predicate arc_code (a dx dy: int) =
    a = 1 /\ dx = 1 /\ dy = 0 \/ a = 2 /\ dx = 1 /\ dy = 1 \/ a = 4 /\ dx = 0 /\ dy = 1 \/ a = 8 /\ dx = -1 /\ dy = 1 \/
    a = 16 /\ dx = -1 /\ dy = 0 \/ a = 32 /\ dx = -1 /\ dy = -1 \/ a = 64 /\ dx = 0 /\ dy = -1 \/ a = 128 /\ dx = 1 /\ dy = -1 \/ a = 0 /\ dx = 0 /\ dy = 0
  predicate arc_means (a n: int) = 0 <= n <= 8 /\ arc_code a (d8x n) (d8y n)
  predicate arc_known (a: int) = exists dx dy. arc_code a dx dy
  (* no two native directions name the same neighbour *)
  lemma arc_unique: forall a n k. arc_means a n -> arc_means a k -> n = k
end

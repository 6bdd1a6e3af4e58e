(* D8 flow directions. *)
module FD
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  function zn (w: int) (z: int -> real) (x y n: int) : real = z (idx w (x + d8x n) (y + d8y n))
  predicate even8 (n: int) = n = 2 \/ n = 4 \/ n = 6 \/ n = 8
  predicate corner (w h x y: int) = (x = 0 \/ x = w - 1) /\ (y = 0 \/ y = h - 1)
  (* an edge cell flows off the raster, diagonally exactly at the corners *)
  predicate edge_dir (w h x y d: int) =
    1 <= d <= 8 /\ not ing w h (x + d8x d) (y + d8y d) /\ (even8 d <-> corner w h x y) /\
    (corner w h x y -> not 0 <= x + d8x d < w /\ not 0 <= y + d8y d < h)
  (* the steepest lower neighbour, the diagonals losing ties *)
  predicate low_dir (w: int) (z: int -> real) (x y d: int) =
    (d = 0 /\ forall n. 1 <= n <= 8 -> zn w z x y n >=. z (idx w x y)) \/
    (1 <= d <= 8 /\ zn w z x y d <. z (idx w x y) /\
     forall n. 1 <= n <= 8 -> zn w z x y d <=. zn w z x y n /\ (zn w z x y n = zn w z x y d -> even8 d -> even8 n))
  predicate d8_dir (w h: int) (z: int -> real) (x y d: int) =
    if isedge w h x y then edge_dir w h x y d else low_dir w z x y d
  predicate low_upto (w: int) (z: int -> real) (x y d k: int) (m: real) =
    (d = 0 /\ m = z (idx w x y) /\ forall n. 1 <= n < k -> zn w z x y n >=. m) \/
    (1 <= d < k /\ m = zn w z x y d /\ m <. z (idx w x y) /\
     forall n. 1 <= n < k -> m <=. zn w z x y n /\ (zn w z x y n = m -> even8 d -> even8 n))
  predicate dirs (w h: int) (z: int -> real) (nd: real) (d: int -> int) (y: int) =
    forall i j. 0 <= i < w -> 0 <= j < y ->
      if z (idx w i j) = nd then d (idx w i j) = 255 else d8_dir w h z i j (d (idx w i j))
end

(* The neighbour geometry: what the tables in constants.hpp mean. *)
module GEOM
  use int.Int
  use real.RealInfix
  use rdbase.Base
  function d4_inverse (n: int) : int = if n = 0 then 0 else if n <= 2 then n + 2 else n - 2
  predicate diag8 (n: int) = n = 2 \/ n = 4 \/ n = 6 \/ n = 8
  function d8dist (n: int) : real = if n = 0 then 0.0 else if n = 2 || n = 4 || n = 6 || n = 8 then sqrt2l else 1.0
  function d4dist (n: int) : real = if n = 0 then 0.0 else 1.0
  function d8diag (n: int) : bool = n = 2 || n = 4 || n = 6 || n = 8
  function d4diag (n: int) : bool = false
  (* every surrounding cell is named exactly once; neighbour 0 is the cell itself *)
  lemma d8_once: forall a b. 0 <= a <= 8 -> 0 <= b <= 8 -> d8x a = d8x b -> d8y a = d8y b -> a = b
  lemma d8_near: forall n. 0 <= n <= 8 -> -1 <= d8x n <= 1 /\ -1 <= d8y n <= 1
  let lemma d8_all (dx dy: int) : int
    requires { -1 <= dx <= 1 /\ -1 <= dy <= 1 }
    ensures { 0 <= result <= 8 /\ d8x result = dx /\ d8y result = dy }
  = if dx = -1 then (if dy = -1 then 2 else if dy = 0 then 1 else 8)
    else if dx = 0 then (if dy = -1 then 3 else if dy = 0 then 0 else 7)
    else (if dy = -1 then 4 else if dy = 0 then 5 else 6)
  lemma d8_circle: forall n. 1 <= n <= 7 -> (d8x (n+1) - d8x n) * (d8x (n+1) - d8x n) + (d8y (n+1) - d8y n) * (d8y (n+1) - d8y n) = 1
  lemma d8_inv: forall n. 0 <= n <= 8 -> 0 <= d8_inverse n <= 8 /\ d8_inverse (d8_inverse n) = n /\ d8x (d8_inverse n) = - d8x n /\ d8y (d8_inverse n) = - d8y n
  lemma d8_diag: forall n. 0 <= n <= 8 -> (diag8 n <-> d8x n <> 0 /\ d8y n <> 0)
  lemma d8_dist: forall n. 1 <= n <= 8 -> d8dist n = if diag8 n then sqrt2l else 1.0
  lemma sqrt2_ok: 1.9999999999999999 <. sqrt2l *. sqrt2l <. 2.0000000000000001
  lemma d4_once: forall a b. 0 <= a <= 4 -> 0 <= b <= 4 -> d4x a = d4x b -> d4y a = d4y b -> a = b
  lemma d4_near: forall n. 1 <= n <= 4 -> d4x n * d4x n + d4y n * d4y n = 1
  lemma d4_inv: forall n. 0 <= n <= 4 -> 0 <= d4_inverse n <= 4 /\ d4_inverse (d4_inverse n) = n /\ d4x (d4_inverse n) = - d4x n /\ d4y (d4_inverse n) = - d4y n
  (* the flat offset of a neighbour is the difference of the flat indices *)
  let lemma shift_ok (w h x y n: int) : unit
    requires { ing w h x y /\ 0 <= n <= 8 /\ ing w h (x + d8x n) (y + d8y n) }
    ensures { idx w (x + d8x n) (y + d8y n) = idx w x y + d8y n * w + d8x n }
  = use_idx w x y; use_idx w (x + d8x n) (y + d8y n);
    assert { (y + d8y n) * w = y * w + d8y n * w }
  predicate shifts (v: vec int) (w h: int) = forall x y n. ing w h x y -> 0 <= n <= 8 -> ing w h (x + d8x n) (y + d8y n) -> idx w (x + d8x n) (y + d8y n) = idx w x y + v.elts n
  let lemma nshift_shifts (v: vec int) (w h: int) : unit
    requires { nshift_ok v w }
    ensures { shifts v w h }
  = assert { forall n. 0 <= n <= 8 -> v.elts n = d8y n * w + d8x n }
  (* the index determines the cell and back *)
  lemma roundtrip: forall w h x y. ing w h x y -> ix w (idx w x y) = x /\ iy w (idx w x y) = y
  lemma roundtrip2: forall w h i. 0 < w -> 0 <= h -> 0 <= i < area w h -> idx w (ix w i) (iy w i) = i /\ ing w h (ix w i) (iy w i)
  constant no_i : int = 4294967295
end

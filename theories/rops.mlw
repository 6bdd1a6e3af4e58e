(* Whole-raster operations. *)
module ROPS
  use int.Int
  use real.RealInfix
  use rdbase.Base
  (* how many of the first n cells hold v *)
  let rec ghost function occ (e: int -> real) (v: real) (n: int) : int
    requires { 0 <= n } variant { n } ensures { 0 <= result <= n }
  = if n = 0 then 0 else occ e v (n-1) + (if pure { e (n-1) = v } then 1 else 0)
  lemma occ_step: forall e v n. 0 <= n -> occ e v (n+1) = occ e v n + (if e n = v then 1 else 0)
  predicate vflipped (e z: int -> real) (w h x y: int) =
    forall a b. ing w h a b -> e (idx w a b) = if b < y || h-1-b < y || ((b = y || b = h-1-y) && a < x) then z (idx w a (h-1-b)) else z (idx w a b)
  predicate hflipped (e z: int -> real) (w h x y: int) =
    forall a b. ing w h a b -> e (idx w a b) = if b < y || (b = y && (a < x || w-1-a < x)) then z (idx w (w-1-a) b) else z (idx w a b)
  let lemma idx_row (w a y: int) : unit requires { 0 <= a < w } ensures { idx w a y = idx w 0 y + a } = use_idx w a y; use_idx w 0 y
  predicate hflip_at (s e w y: int) =
    s + e = idx w 0 y + idx w (w-1) y /\ idx w 0 y <= s <= e + 2 /\ 2 * (s - idx w 0 y) <= w + 1
  predicate transposed (n e: int -> real) (w h x y: int) =
    forall a b. ing w h a b -> b < y || (b = y && a < x) -> n (idx h b a) = e (idx w a b)
  predicate expanded (e z: int -> real) (ow nw nh x y: int) (v: real) =
    forall a b. ing nw nh a b -> e (idx nw a b) = if a < ow && (b < y || (b = y && a < x)) then z (idx ow a b) else v
  let area_comm (w h: int) : unit ensures { area w h = area h w } = use_area w h; use_area h w
  let idx_u32 (w h x y: int) : unit requires { dims_ok w h /\ ing w h x y }
    ensures { to_u32 (to_u32 (to_u32 y * to_u32 w) + to_u32 x) = idx w x y }
  = use_idx w x y; assert { 0 <= y * w <= idx w x y < area w h }
  let idx_u64 (w h x y: int) : unit requires { dims_ok w h /\ ing w h x y }
    ensures { to_u64 y * to_u64 w + to_u64 x = idx w x y /\ to_u64 y * w + to_u64 x = idx w x y }
  = use_idx w x y; assert { 0 <= y * w <= idx w x y < area w h }
end

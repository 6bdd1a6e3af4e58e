(* Radix heap: key encodings and bucket numbers over 64-bit vectors. *)
module RADIX
  use int.Int
  use export bv.BV64
  constant top : t = (0x8000_0000_0000_0000:t)
  val b_eq (a b: t) : bool ensures { result <-> a = b }
  let function w32 (x: t) : t = bw_and x (0xffff_ffff:t)
  (* shifts by a variable; by 64 or more is undefined, taken as some value *)
  val function cshl (a b: t) : t ensures { ult b (64:t) -> result = lsl_bv a b }
  val function cshr (a b: t) : t ensures { ult b (64:t) -> result = lsr_bv a b }
  (* __builtin_clzll and __builtin_ffsll *)
  predicate is_clz (v r: t) = ult r (64:t) /\ lsr_bv v (sub (63:t) r) = (1:t)
  val clz64 (v: t) : t requires { [@expl:clz of zero] v <> zeros } ensures { is_clz v result }
  val ffs64 (v: t) : t ensures { result = zeros <-> v = zeros }
    ensures { v <> zeros -> ule (1:t) result /\ ule result (64:t) /\ bw_and (lsr_bv v (sub result (1:t))) (1:t) = (1:t) /\ bw_and v (sub (lsl_bv (1:t) (sub result (1:t))) (1:t)) = zeros }
  (* signed integers *)
  function enc_s (x: t) : t = bw_xor x top
  lemma enc_s_order: forall x y. slt x y <-> ult (enc_s x) (enc_s y)
  lemma enc_s_inv: forall x. enc_s (enc_s x) = x
  (* doubles, by their bits: sign and magnitude. nan, and the order of the values of non-nan doubles *)
  function mag (x: t) : t = bw_and x (bw_not top)
  predicate negative (x: t) = bw_and x top <> zeros
  predicate nan (x: t) = ugt (mag x) (0x7ff0_0000_0000_0000:t)
  predicate dlt (x y: t) =
    if negative x && negative y then ult (mag y) (mag x)
    else if negative x then not (mag x = zeros /\ mag y = zeros)
    else if negative y then false
    else ult (mag x) (mag y)
  function enc_d (x: t) : t = if negative x then bw_not x else bw_xor x top
  function dec_d (x: t) : t = if negative x then bw_xor x top else bw_not x
  lemma enc_d_order: forall x y. dlt x y -> ult (enc_d x) (enc_d y)
  lemma enc_d_order_rev: forall x y. ult (enc_d x) (enc_d y) -> dlt x y \/ (mag x = zeros /\ mag y = zeros)
  lemma enc_d_inv: forall x. dec_d (enc_d x) = x
  lemma dec_d_inv: forall x. enc_d (dec_d x) = x
  (* the bucket of key x when last was popped last: the number of low bits up to and including the highest differing one *)
  predicate bucket (x last k: t) =
    ule k (64:t) /\ if k = zeros then x = last else lsr_bv (bw_xor x last) (sub k (1:t)) = (1:t)
  lemma bucket_unique: forall x last k j. bucket x last k -> bucket x last j -> k = j
  lemma bucket_order: forall x y last j k. ule last x -> ule last y -> bucket x last j -> bucket y last k -> ult j k -> ult x y
  lemma bucket_shrinks: forall x m last i k. ule last m -> ule m x -> bucket m last i -> bucket x last i -> i <> zeros -> bucket x m k -> ult k i
  lemma bucket_others: forall x m last i j. ule last m -> ule m x -> bucket m last i -> bucket x last j -> ult i j -> bucket x m j
  (* flags: bucket k (1..64) is marked in bit k-1 *)
  type bflags = { mutable flags: t }
  predicate isset (f k: t) = ule (1:t) k /\ ule k (64:t) /\ bw_and (lsr_bv f (sub k (1:t))) (1:t) = (1:t)
end

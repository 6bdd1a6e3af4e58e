(* Disjoint sets: parent forest with ghost representative and measure; histories of operations. *)
module History
  use int.Int
  type st
  predicate inv st
  predicate stp st st
  axiom pres: forall a b. inv a -> stp a b -> inv b
  predicate run (s: int -> st) (k: int) = forall t. 0 <= t < k -> stp (s t) (s (t+1))
  let rec lemma run_inv (s: int -> st) (k: int) : unit
    requires { 0 <= k /\ inv (s 0) /\ run s k } variant { k } ensures { inv (s k) }
  = if k > 0 then run_inv s (k-1)
end
module DJ
  use int.Int
  use real.RealInfix
  use rdbase.Base
  type dset = { rank: vec int; parent: vec int; mutable ghost rep: int -> int; mutable ghost mes: int -> int }
  (* the parents form a forest: the measure falls towards the root, and rep is the root *)
  predicate forest (p: int -> int) (n: int) (rep mes: int -> int) =
    forall i. 0 <= i < n -> 0 <= p i < n /\ 0 <= mes i /\ (p i <> i -> mes (p i) < mes i) /\ rep (p i) = rep i /\ (p i = i -> rep i = i)
  predicate rooted (p: int -> int) (n: int) (rep: int -> int) = forall i. 0 <= i < n -> 0 <= rep i < n /\ p (rep i) = rep i /\ rep (rep i) = rep i
  predicate dsok (d: dset) = d.rank.len = d.parent.len /\ d.parent.len <= 4294967295 /\ forest d.parent.elts d.parent.len d.rep d.mes /\ rooted d.parent.elts d.parent.len d.rep
  function ident (i: int) : int = i
  function zero (_i: int) : int = 0
  function extend_rep (r: int -> int) (n: int) (i: int) : int = if i < n then r i else i
  function extend_mes (m: int -> int) (n: int) (i: int) : int = if i < n then m i else 0
  function link_rep (r: int -> int) (a b: int) (i: int) : int = if r i = a then b else r i
  function link_mes (r m: int -> int) (a b: int) (i: int) : int = if r i = a then m i + m b + 1 else m i
  predicate own_parents (p p0: int -> int) (n k: int) = (forall i. 0 <= i < n -> p i = p0 i) /\ forall i. n <= i < k -> p i = i
  (* the root a has just become a child of the root b *)
  let ghost link (d: dset) (a b: int) : unit
    requires { 0 <= a < d.parent.len /\ 0 <= b < d.parent.len /\ a <> b /\ d.rep a = a /\ d.rep b = b /\ d.parent.elts a = b /\ d.parent.elts b = b }
    requires { rooted (fun i -> if i = a then a else d.parent.elts i) d.parent.len d.rep }
    requires { forest (fun i -> if i = a then a else d.parent.elts i) d.parent.len d.rep d.mes }
    writes { d.rep, d.mes }
    ensures { forest d.parent.elts d.parent.len d.rep d.mes /\ rooted d.parent.elts d.parent.len d.rep }
    ensures { forall i. d.rep i = if old d.rep i = a then b else old d.rep i }
  = let r = pure { d.rep } in let m = pure { d.mes } in
    d.rep <- (fun i -> if r i = a then b else r i);
    d.mes <- (fun i -> if r i = a then m i + m b + 1 else m i)
  (* what the operations do to the representatives of the elements 0..n-1 *)
  predicate grown (r0 r1: int -> int) (n: int) = forall i. r1 i = if i < n then r0 i else i
  predicate joined (r0 r1: int -> int) (a b: int) =
    exists t. (t = r0 a \/ t = r0 b) /\ forall i. r1 i = if r0 i = r0 a || r0 i = r0 b then t else r0 i
  predicate merged (r0 r1: int -> int) (a b: int) = forall i. r1 i = if r0 i = r0 a then r0 b else r0 i

  (* histories: con is the equivalence generated by the requested unions *)
  type state = { r: int -> int; con: int -> int -> bool }
  predicate inv (s: state) = forall i j. 0 <= i -> 0 <= j -> (s.con i j <-> s.r i = s.r j)
  predicate generated (c0 c1: int -> int -> bool) (a b: int) = forall i j. c1 i j <-> (c0 i j \/ (c0 i a /\ c0 b j) \/ (c0 i b /\ c0 a j))
  predicate stp (s0 s1: state) =
    ((forall i. 0 <= i -> s1.r i = s0.r i) /\ s1.con = s0.con) \/
    exists a b. 0 <= a /\ 0 <= b /\ generated s0.con s1.con a b /\ (joined s0.r s1.r a b \/ merged s0.r s1.r a b)
  lemma stp_inv: forall s0 s1. inv s0 -> stp s0 s1 -> inv s1
  clone History with type st = state, predicate inv = inv, predicate stp = stp, lemma pres
  (* elements never seen so far are their own sets: growing changes no representative *)
  lemma grown_same: forall r0 r1 n. grown r0 r1 n -> (forall i. n <= i -> r0 i = i) -> forall i. r1 i = r0 i
  (* con is the least such equivalence *)
  predicate equivalence (c: int -> int -> bool) = (forall i. c i i) /\ (forall i j. c i j -> c j i) /\ forall i j k. c i j -> c j k -> c i k
  lemma generated_equiv: forall c0 c1 a b. equivalence c0 -> generated c0 c1 a b -> equivalence c1 /\ c1 a b
  lemma generated_least: forall c0 c1 c a b. generated c0 c1 a b -> equivalence c -> (forall i j. c0 i j -> c i j) -> c a b -> forall i j. c1 i j -> c i j
end

(* Order of elevation-carrying cells in IEEE-754 arithmetic, and the stable queues. *)
module FLT64
  use int.Int
  use export ieee_float.Float64
  val f_lt (a b: t) : bool ensures { result <-> lt a b }
  val f_gt (a b: t) : bool ensures { result <-> gt a b }
  val f_le (a b: t) : bool ensures { result <-> le a b }
  val f_ge (a b: t) : bool ensures { result <-> ge a b }
  val f_eq (a b: t) : bool ensures { result <-> eq a b }
  val f_ne (a b: t) : bool ensures { result <-> not eq a b }
  val f_isnan (a: t) : bool ensures { result <-> is_nan a }
  (* NaN below every number *)
  predicate below (a b: t) = (is_nan a /\ not is_nan b) \/ lt a b
  predicate level (a b: t) = (is_nan a /\ is_nan b) \/ eq a b
  lemma irreflexive: forall a. not below a a
  lemma asymmetric: forall a b. below a b -> not below b a
  lemma transitive: forall a b c. below a b -> below b c -> below a c
  lemma trichotomy: forall a b. below a b \/ below b a \/ level a b
  lemma exclusive: forall a b. level a b -> not below a b
  lemma level_refl: forall a. level a a
  lemma level_sym: forall a b. level a b -> level b a
  lemma level_trans: forall a b c. level a b -> level b c -> level a c
  lemma level_below: forall a b c. level a b -> (below a c <-> below b c) /\ (below c a <-> below c b)
  lemma nan_lowest: forall a b. is_nan a -> not is_nan b -> below a b
  lemma numbers: forall a b. not is_nan a -> not is_nan b -> (below a b <-> lt a b)
end
module FLT32
  use int.Int
  use export ieee_float.Float32
  val f_lt (a b: t) : bool ensures { result <-> lt a b }
  val f_gt (a b: t) : bool ensures { result <-> gt a b }
  val f_le (a b: t) : bool ensures { result <-> le a b }
  val f_ge (a b: t) : bool ensures { result <-> ge a b }
  val f_eq (a b: t) : bool ensures { result <-> eq a b }
  val f_ne (a b: t) : bool ensures { result <-> not eq a b }
  val f_isnan (a: t) : bool ensures { result <-> is_nan a }
  (* NaN below every number *)
  predicate below (a b: t) = (is_nan a /\ not is_nan b) \/ lt a b
  predicate level (a b: t) = (is_nan a /\ is_nan b) \/ eq a b
  lemma irreflexive: forall a. not below a a
  lemma asymmetric: forall a b. below a b -> not below b a
  lemma transitive: forall a b c. below a b -> below b c -> below a c
  lemma trichotomy: forall a b. below a b \/ below b a \/ level a b
  lemma exclusive: forall a b. level a b -> not below a b
  lemma level_refl: forall a. level a a
  lemma level_sym: forall a b. level a b -> level b a
  lemma level_trans: forall a b c. level a b -> level b c -> level a c
  lemma level_below: forall a b c. level a b -> (below a c <-> below b c) /\ (below c a <-> below c b)
  lemma nan_lowest: forall a b. is_nan a -> not is_nan b -> below a b
  lemma numbers: forall a b. not is_nan a -> not is_nan b -> (below a b <-> lt a b)
end
module INTZ
  use int.Int
  type t = int
  predicate below (a b: t) = a < b
  predicate level (a b: t) = a = b
  lemma irreflexive: forall a. not below a a
  lemma asymmetric: forall a b. below a b -> not below b a
  lemma transitive: forall a b c. below a b -> below b c -> below a c
  lemma trichotomy: forall a b. below a b \/ below b a \/ level a b
  lemma exclusive: forall a b. level a b -> not below a b
  lemma level_refl: forall a. level a a
  lemma level_sym: forall a b. level a b -> level b a
  lemma level_trans: forall a b c. level a b -> level b c -> level a c
  lemma level_below: forall a b c. level a b -> (below a c <-> below b c) /\ (below c a <-> below c b)
end
(* cells, the order of the stable queues, and the queues over any totally pre-ordered elevation *)
module CELLS
  use int.Int
  type t
  predicate below t t
  predicate level t t
  axiom irreflexive: forall a. not below a a
  axiom asymmetric: forall a b. below a b -> not below b a
  axiom transitive: forall a b c. below a b -> below b c -> below a c
  axiom trichotomy: forall a b. below a b \/ below b a \/ level a b
  axiom exclusive: forall a b. level a b -> not below a b
  axiom level_refl: forall a. level a a
  axiom level_sym: forall a b. level a b -> level b a
  axiom level_trans: forall a b c. level a b -> level b c -> level a c
  axiom level_below: forall a b c. level a b -> (below a c <-> below b c) /\ (below c a <-> below c b)
  type gcz = { zx: int; zy: int; zz: t }
  type zk = { kx: int; ky: int; kz: t; kk: int }
  predicate after_low (a b: zk) = below b.kz a.kz \/ (level a.kz b.kz /\ a.kk > b.kk)
  predicate after_high (a b: zk) = below b.kz a.kz \/ (level a.kz b.kz /\ a.kk < b.kk)
  lemma low_irreflexive: forall a. not after_low a a
  lemma low_transitive: forall a b c. after_low a b -> after_low b c -> after_low a c
  lemma low_total: forall a b. after_low a b \/ after_low b a \/ (level a.kz b.kz /\ a.kk = b.kk)
  lemma high_irreflexive: forall a. not after_high a a
  lemma high_transitive: forall a b c. after_high a b -> after_high b c -> after_high a c
  lemma high_total: forall a b. after_high a b \/ after_high b a \/ (level a.kz b.kz /\ a.kk = b.kk)
  (* std::priority_queue<zk, vector<zk>, greater<zk>>, as a bag *)
  type pq = private { mutable ghost cnt: zk -> int }
  val pq_push (q: pq) (e: zk) : unit writes { q } ensures { forall x. q.cnt x = if x = e then old q.cnt x + 1 else old q.cnt x }
  type zkq = { base: pq; mutable count: int }
  (* every cell was numbered on insertion, and no two cells of the queue have the same number *)
  predicate numbered (cnt: zk -> int) (k: int) =
    0 <= k /\ (forall e. 0 <= cnt e <= 1) /\ (forall e. cnt e > 0 -> 0 < e.kk <= k) /\ forall a b. cnt a > 0 -> cnt b > 0 -> a.kk = b.kk -> a = b
  (* removing cells keeps that *)
  lemma numbered_pop: forall c c' k. numbered c k -> (forall e. 0 <= c' e <= c e) -> numbered c' k
  (* the cell std::priority_queue returns: no cell of the queue comes before it. Any such cell is the lowest, and the earliest (latest) of the lowest *)
  predicate top_low (cnt: zk -> int) (e: zk) = cnt e > 0 /\ forall x. cnt x > 0 -> not after_low e x
  predicate top_high (cnt: zk -> int) (e: zk) = cnt e > 0 /\ forall x. cnt x > 0 -> not after_high e x
  lemma low_order: forall c k e x. numbered c k -> top_low c e -> c x > 0 -> x <> e -> below e.kz x.kz \/ (level e.kz x.kz /\ e.kk < x.kk)
  lemma high_order: forall c k e x. numbered c k -> top_high c e -> c x > 0 -> x <> e -> below e.kz x.kz \/ (level e.kz x.kz /\ e.kk > x.kk)
end
module C64
  use FLT64 as E
  clone export CELLS with type t = E.t, predicate below = E.below, predicate level = E.level, lemma irreflexive, lemma asymmetric, lemma transitive, lemma trichotomy, lemma exclusive, lemma level_refl, lemma level_sym, lemma level_trans, lemma level_below
end
module C32
  use FLT32 as E
  clone export CELLS with type t = E.t, predicate below = E.below, predicate level = E.level, lemma irreflexive, lemma asymmetric, lemma transitive, lemma trichotomy, lemma exclusive, lemma level_refl, lemma level_sym, lemma level_trans, lemma level_below
end
module CINT
  use INTZ as E
  clone export CELLS with type t = E.t, predicate below = E.below, predicate level = E.level, lemma irreflexive, lemma asymmetric, lemma transitive, lemma trichotomy, lemma exclusive, lemma level_refl, lemma level_sym, lemma level_trans, lemma level_below
end

(* std::list with node handles, std::unordered_map, and the recency list built from them *)
module LIST
  use int.Int
  use map.Map
  (* ns j: the node at position j; vl: the value held by a node; nodes are distinct *)
  type lst 'a = private { mutable ns: int -> int; mutable ln: int; mutable vl: int -> 'a; mutable nx: int }
    invariant { 0 <= ln /\ forall i j. 0 <= i < j < ln -> ns i <> ns j }
    invariant { forall i. 0 <= i < ln -> ns i < nx }
  val lst_new () : lst 'a ensures { result.ln = 0 }
  val lst_begin (l: lst 'a) : int requires { [@expl:begin of a non-empty list] 0 < l.ln } ensures { result = l.ns 0 }
  val lst_back (l: lst 'a) : 'a requires { [@expl:back of a non-empty list] 0 < l.ln } ensures { result = l.vl (l.ns (l.ln - 1)) }
  val lst_front (l: lst 'a) : 'a requires { [@expl:front of a non-empty list] 0 < l.ln } ensures { result = l.vl (l.ns 0) }
  val lst_size (l: lst 'a) : int ensures { result = l.ln }
  val lst_empty (l: lst 'a) : bool ensures { result <-> l.ln = 0 }
  val lst_pop_back (l: lst 'a) : unit requires { [@expl:pop_back of a non-empty list] 0 < l.ln } writes { l.ln }
    ensures { l.ln = old l.ln - 1 }
  val lst_push_front (l: lst 'a) (x: 'a) : unit writes { l.ns, l.ln, l.vl, l.nx }
    ensures { l.ln = old l.ln + 1 /\ l.ns 0 = old l.nx /\ l.nx = old l.nx + 1 /\ l.vl = set (old l.vl) (old l.nx) x }
    ensures { forall j. 0 < j < l.ln -> l.ns j = old l.ns (j - 1) }
    ensures { forall j. 0 <= j < old l.ln -> l.ns (j + 1) = old l.ns j }
  predicate moved (n m: int -> int) (len p: int) =
    0 <= p < len /\ m 0 = n p /\ (forall j. 0 < j <= p -> m j = n (j - 1)) /\ (forall j. p < j < len -> m j = n j) /\ (forall j. 0 <= j < p -> m (j + 1) = n j)
  val lst_splice_front (l: lst 'a) (it: int) : unit writes { l.ns }
    requires { [@expl:splice of a node of the list] exists p. 0 <= p < l.ln /\ l.ns p = it }
    ensures { exists p. moved (old l.ns) l.ns l.ln p /\ old l.ns p = it }
  type umap 'k 'v = private { mutable dom: 'k -> bool; mutable mp: 'k -> 'v }
  val umap_new () : umap 'k 'v ensures { forall k. not result.dom k }
  val umap_count (m: umap 'k 'v) (k: 'k) : int ensures { result = (if m.dom k then 1 else 0) }
  val umap_get (m: umap 'k 'v) (k: 'k) : 'v requires { [@expl:key present] m.dom k } ensures { result = m.mp k }
  val umap_set (m: umap 'k 'v) (k: 'k) (v: 'v) : unit writes { m } ensures { m.dom = set (old m.dom) k true /\ m.mp = set (old m.mp) k v }
  val umap_erase (m: umap 'k 'v) (k: 'k) : int writes { m } ensures { m.dom = set (old m.dom) k false /\ m.mp = old m.mp /\ result = (if old m.dom k then 1 else 0) }
end
module LRU
  use int.Int
  use map.Map
  use export LIST
  use rdbase.Base
  (* tm k: the time of the last insertion of k; clk: the number of insertions made *)
  type lru = { mutable ulen: int; mutable maxlen: int; mutable last: int; visited: umap int int; cache: lst int; mutable ghost tm: int -> int; mutable ghost clk: int }
  function item (l: lru) (j: int) : int = l.cache.vl (l.cache.ns j)
  predicate held (l: lru) (k: int) = exists j. 0 <= j < l.ulen /\ item l j = k
  predicate lruok (l: lru) =
    l.ulen = l.cache.ln /\
    (forall j. 0 <= j < l.ulen -> l.visited.dom (item l j) /\ l.visited.mp (item l j) = l.cache.ns j) /\
    (forall k. l.visited.dom k -> held l k) /\
    l.ulen <= 2147483647 /\ (0 < l.ulen -> l.last = item l 0) /\
    (forall i j. 0 <= i < j < l.ulen -> l.tm (item l i) > l.tm (item l j)) /\
    (forall j. 0 <= j < l.ulen -> l.tm (item l j) < l.clk)
  lemma distinct: forall l i j. lruok l -> 0 <= i < j < l.ulen -> item l i <> item l j
end

(* Explicit heap for the storage class ManagedVector, its operations and the histories of operations. *)
(* an invariant kept by every step holds after every finite history *)
module History
  use int.Int
  type st
  predicate inv st
  predicate stp st st
  axiom pres: forall a b. inv a -> stp a b -> inv b
  predicate run (s: int -> st) (k: int) = forall t. 0 <= t < k -> stp (s t) (s (t+1))
  let rec lemma run_inv (s: int -> st) (k: int) : unit
    requires { 0 <= k /\ inv (s 0) /\ run s k } variant { k } ensures { inv (s k) }
  = if k > 0 then run_inv s (k-1)
end
module HEAP
  use int.Int
  use real.RealInfix
  use rdbase.Base
  predicate ext (p: int)            (* memory of somebody else, which rasters may wrap *)
  type heap_t = private { mutable ghost alive: int -> bool; mutable ghost blk: int -> int -> real; mutable ghost sz: int -> int }
    invariant { forall p. alive p -> p <> 0 /\ not ext p /\ 0 <= sz p }
  val heap : heap_t
  type uptr = { mutable p: int }
  predicate acc (h: heap_t) (q i: int) = (h.alive q \/ ext q) /\ 0 <= i < h.sz q
  val uptr_null () : uptr ensures { result.p = 0 }
  val uptr_get (u: uptr) (i: int) : real
    requires { [@expl:access inside a live block] acc heap u.p i } ensures { result = heap.blk u.p i }
  val uptr_set (u: uptr) (i: int) (v: real) : unit
    requires { [@expl:access inside a live block] acc heap u.p i } writes { heap.blk }
    ensures { forall q j. heap.blk q j = if q = u.p && j = i then v else old heap.blk q j }
  val uptr_ptr (u: uptr) : int ensures { result = u.p }
  val uptr_release (u: uptr) : int writes { u } ensures { result = old u.p /\ u.p = 0 }
  let ignore_int (_x: int) : unit = ()
  predicate freed1 (a0 a1: int -> bool) (q: int) = forall r. a1 r <-> (a0 r /\ not (q <> 0 /\ r = q))
  val uptr_reset (u: uptr) (q: int) : unit
    requires { [@expl:only live owned memory is freed] u.p <> 0 -> heap.alive u.p }
    requires { [@expl:not reset to itself] u.p <> 0 -> q <> u.p }
    writes { u, heap.alive }
    ensures { u.p = q /\ freed1 (old heap.alive) heap.alive (old u.p) }
  val uptr_move (u v: uptr) : unit
    requires { [@expl:only live owned memory is freed] u.p <> 0 -> heap.alive u.p /\ v.p <> u.p }
    writes { u, v, heap.alive }
    ensures { u.p = old v.p /\ v.p = 0 /\ freed1 (old heap.alive) heap.alive (old u.p) }
  val uptr_destroy (u: uptr) : unit
    requires { [@expl:only live owned memory is freed] u.p <> 0 -> heap.alive u.p }
    writes { u, heap.alive }
    ensures { u.p = 0 /\ freed1 (old heap.alive) heap.alive (old u.p) }
  val heap_new (n: int) : int
    requires { 0 <= n } writes { heap }
    ensures { result <> 0 /\ not old heap.alive result /\ not ext result /\ heap.alive result /\ heap.sz result = n }
    ensures { forall r. r <> result -> (heap.alive r <-> old heap.alive r) /\ heap.sz r = old heap.sz r }
    ensures { forall r j. r <> result -> heap.blk r j = old heap.blk r j }

  (* storage objects *)
  type mv = { data: uptr; mutable owned: bool; mutable size: int }
  (* snapshots *)
  type hs = { ha: int -> bool; hb: int -> int -> real; hz: int -> int }
  type ms = { q: int; own: bool; n: int }
  function hsnap (h: heap_t) : hs = { ha = h.alive; hb = h.blk; hz = h.sz }
  function snap (m: mv) : ms = { q = m.data.p; own = m.owned; n = m.size }
  (* only the contents of one block have changed *)
  predicate kept (h0: hs) (h: heap_t) (q: int) =
    (forall r. (h0.ha r <-> h.alive r) /\ h0.hz r = h.sz r) /\ forall r j. r <> q -> h.blk r j = h0.hb r j
  (* one storage object is consistent with the heap *)
  predicate ok (h: hs) (m: ms) =
    0 <= m.n /\ (m.q = 0 -> m.n = 0) /\
    (m.q <> 0 -> m.n <= h.hz m.q /\ if m.own then h.ha m.q /\ not ext m.q /\ h.hz m.q = m.n else ext m.q)
  (* two storage objects do not own the same memory *)
  predicate apart (m1 m2: ms) = m1.own -> m2.own -> m1.q <> 0 -> m1.q <> m2.q
  (* the memory an object frees when it dies or lets go *)
  predicate drops (m: ms) (r: int) = m.own /\ m.q <> 0 /\ r = m.q
  (* what happens to memory, for each operation (0 before, 1 after) *)
  predicate untouched (h0 h1: hs) (r: int) = h1.hz r = h0.hz r /\ forall j. h1.hb r j = h0.hb r j
  predicate op_alloc (h0 h1: hs) (k: int) (m: ms) =
    m.q <> 0 /\ m.own /\ m.n = k /\ not h0.ha m.q /\ not ext m.q /\ h1.hz m.q = k /\
    (forall r. h1.ha r <-> (h0.ha r \/ r = m.q)) /\ forall r. r <> m.q -> untouched h0 h1 r
  predicate same_contents (h0: hs) (q0: int) (h1: hs) (q1: int) (k: int) = forall i. 0 <= i < k -> h1.hb q1 i = h0.hb q0 i
  predicate op_copy (h0 h1: hs) (o m: ms) = op_alloc h0 h1 o.n m /\ same_contents h0 o.q h1 m.q o.n
  predicate op_keep (h0 h1: hs) = forall r. (h1.ha r <-> h0.ha r) /\ untouched h0 h1 r
  predicate op_empty (m: ms) = m.q = 0 /\ m.own /\ m.n = 0
  predicate op_move (h0 h1: hs) (o0 o1 m: ms) = op_keep h0 h1 /\ m = o0 /\ op_empty o1
  predicate op_moveassign (h0 h1: hs) (t0 o0 t1 o1: ms) =
    t1 = o0 /\ op_empty o1 /\ (forall r. h1.ha r <-> (h0.ha r /\ not drops t0 r)) /\ forall r. untouched h0 h1 r
  predicate op_copyassign (h0 h1: hs) (t0 o t1: ms) =
    t1.q <> 0 /\ t1.own /\ t1.n = o.n /\ not h0.ha t1.q /\ not ext t1.q /\ h1.hz t1.q = o.n /\ same_contents h0 o.q h1 t1.q o.n /\
    (forall r. h1.ha r <-> (r = t1.q \/ (h0.ha r /\ not drops t0 r))) /\ forall r. r <> t1.q -> untouched h0 h1 r
  predicate op_destroy (h0 h1: hs) (t0: ms) = (forall r. h1.ha r <-> (h0.ha r /\ not drops t0 r)) /\ forall r. untouched h0 h1 r
  predicate op_resize (h0 h1: hs) (t0 t1: ms) (k: int) =
    if t0.n = k then op_keep h0 h1 /\ t1 = t0
    else t0.own /\ t1.own /\ t1.n = k /\ t1.q <> 0 /\ (not h0.ha t1.q \/ drops t0 t1.q) /\ not ext t1.q /\ h1.hz t1.q = k /\
      (forall r. h1.ha r <-> (r = t1.q \/ (h0.ha r /\ not drops t0 r))) /\ forall r. r <> t1.q -> untouched h0 h1 r

  (* histories: finitely many objects, all the owned memory is owned by exactly one of them *)
  type world = { w: int -> ms; live: int -> bool; h: hs }
  predicate inv (s: world) =
    (forall i. s.live i -> ok s.h (s.w i)) /\
    (forall i j. s.live i -> s.live j -> i <> j -> apart (s.w i) (s.w j)) /\
    (forall r. s.h.ha r -> r <> 0 /\ not ext r /\ exists i. s.live i /\ drops (s.w i) r)
  predicate others (s0 s1: world) (a b: int) = forall i. i <> a -> i <> b -> s1.w i = s0.w i /\ (s1.live i <-> s0.live i)
  predicate step (s0 s1: world) (a b: int) =
    (* object a is created by allocation, wrapping, copy or move, changed by copy or move assignment or by resizing, or destroyed *)
    a <> b /\ others s0 s1 a b /\ (
    (not s0.live a /\ s1.live a /\ (s1.live b <-> s0.live b) /\ s1.w b = s0.w b /\
      ((exists k. 0 <= k /\ op_alloc s0.h s1.h k (s1.w a)) \/
       (op_keep s0.h s1.h /\ (op_empty (s1.w a) \/ (ext (s1.w a).q /\ (s1.w a).q <> 0 /\ not (s1.w a).own /\ 0 <= (s1.w a).n <= s1.h.hz (s1.w a).q))) \/
       (s0.live b /\ op_copy s0.h s1.h (s0.w b) (s1.w a)))) \/
    (not s0.live a /\ s1.live a /\ s0.live b /\ s1.live b /\ op_move s0.h s1.h (s0.w b) (s1.w b) (s1.w a)) \/
    (s0.live a /\ s1.live a /\ s0.live b /\ s1.live b /\ op_moveassign s0.h s1.h (s0.w a) (s0.w b) (s1.w a) (s1.w b)) \/
    (s0.live a /\ s1.live a /\ s0.live b /\ s1.live b /\ s1.w b = s0.w b /\ op_copyassign s0.h s1.h (s0.w a) (s0.w b) (s1.w a)) \/
    (s0.live a /\ s1.live a /\ (s1.live b <-> s0.live b) /\ s1.w b = s0.w b /\ exists k. 0 <= k /\ op_resize s0.h s1.h (s0.w a) (s1.w a) k) \/
    (s0.live a /\ not s1.live a /\ (s1.live b <-> s0.live b) /\ s1.w b = s0.w b /\ op_destroy s0.h s1.h (s0.w a)))
  lemma step_inv: forall s0 s1 a b. inv s0 -> step s0 s1 a b -> inv s1
  (* a wrapped buffer is never allocated, freed or resized *)
  lemma step_ext: forall s0 s1 a b r. inv s0 -> step s0 s1 a b -> ext r -> not s1.h.ha r /\ untouched s0.h s1.h r
  (* the contents of an object nobody assigns to, resizes, moves from or destroys are unchanged *)
  lemma step_indep: forall s0 s1 a b i j. inv s0 -> step s0 s1 a b -> s0.live i -> i <> a -> i <> b -> 0 <= j < (s0.w i).n ->
    s1.w i = s0.w i /\ s1.h.hb (s1.w i).q j = s0.h.hb (s0.w i).q j
  predicate any_step (s0 s1: world) = exists a b. step s0 s1 a b
  lemma any_step_inv: forall s0 s1. inv s0 -> any_step s0 s1 -> inv s1
  clone History with type st = world, predicate inv = inv, predicate stp = any_step, lemma pres
  (* when every object is gone, no memory is left *)
  lemma no_leak: forall s. inv s -> (forall i. not s.live i) -> forall r. not s.h.ha r
end

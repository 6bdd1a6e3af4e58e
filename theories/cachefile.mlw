(* Files as sequences of typed items; a read gives back an item exactly when its kind and size match what was written *)
module IO
  use int.Int
  use real.RealInfix
  use map.Map
  use rdbase.Base
  type str = { sl: int; se: int -> int }
  val str_resize (s: str) (n c: int) : str requires { [@expl:string size] 0 <= n }
    ensures { result.sl = n /\ forall i. 0 <= i < n -> result.se i = (if i < s.sl then s.se i else c) }
  (* kind 0: integer, 1: real, 2: characters, 3: reals, 4: integers; bytes in all; bytes of an element *)
  type item = { kind: int; bytes: int; unit_: int; iv: int; rv: real; ie: int -> int; re: int -> real }
  type file = { it: int -> item; n: int }
  type fsys
  function fat (d: fsys) (g: str) : file
  type dsk = private { mutable files: fsys }
  val disk : dsk
  type stream = private { mutable sid: str; mutable pos: int; mutable sok: bool }
  predicate app (d d2: fsys) (f: str) =
    (fat d2 f).n = (fat d f).n + 1 /\ (forall i [(fat d2 f).it i]. i <> (fat d f).n -> (fat d2 f).it i = (fat d f).it i) /\ forall g [fat d2 g]. g <> f -> fat d2 g = fat d g
  function last (d2: fsys) (f: str) : item = (fat d2 f).it ((fat d2 f).n - 1)
  val st_new () : stream
  val st_open_w (s: stream) (nm: str) : unit writes { s, disk.files }
    ensures { s.sok -> s.sid = nm /\ (fat disk.files nm).n = 0 /\ forall g [fat disk.files g]. g <> nm -> fat disk.files g = fat (old disk.files) g }
    ensures { not s.sok -> disk.files = old disk.files }
  val st_open_r (nm: str) : stream ensures { result.sid = nm /\ result.pos = 0 }
  val st_good (s: stream) : bool ensures { result = s.sok }
  val st_flush (s: stream) : unit writes { s.sok } ensures { s.sok -> old s.sok }
  val st_write_i (s: stream) (b sz v: int) : unit requires { [@expl:bytes of the value] b = sz } writes { s.sok, disk.files }
    ensures { s.sok -> old s.sok } ensures { s.sok -> app (old disk.files) disk.files s.sid /\ let t = last disk.files s.sid in t.kind = 0 /\ t.bytes = b /\ t.iv = v }
  val st_write_r (s: stream) (b sz: int) (v: real) : unit requires { [@expl:bytes of the value] b = sz } writes { s.sok, disk.files }
    ensures { s.sok -> old s.sok } ensures { s.sok -> app (old disk.files) disk.files s.sid /\ let t = last disk.files s.sid in t.kind = 1 /\ t.bytes = b /\ t.rv = v }
  val st_write_s (s: stream) (v: str) (b: int) : unit requires { [@expl:bytes of the string] 0 <= b <= v.sl } writes { s.sok, disk.files }
    ensures { s.sok -> old s.sok } ensures { s.sok -> app (old disk.files) disk.files s.sid /\ let t = last disk.files s.sid in t.kind = 2 /\ t.bytes = b /\ t.ie = v.se }
  val st_write_vr (s: stream) (v: vec real) (b sz: int) : unit requires { [@expl:bytes in the buffer] 0 <= b <= sz * v.len } writes { s.sok, disk.files }
    ensures { s.sok -> old s.sok } ensures { s.sok -> app (old disk.files) disk.files s.sid /\ let t = last disk.files s.sid in t.kind = 3 /\ t.bytes = b /\ t.unit_ = sz /\ t.re = v.elts }
  predicate here (d: fsys) (s: stream) (p k b: int) = 0 <= p < (fat d s.sid).n /\ ((fat d s.sid).it p).kind = k /\ ((fat d s.sid).it p).bytes = b
  val st_read_i (s: stream) (b sz lo hi: int) : int requires { [@expl:bytes of the value] b = sz } writes { s.pos, s.sok }
    ensures { lo <= result <= hi }
    ensures { here disk.files s (old s.pos) 0 b -> s.pos = old s.pos + 1 /\ result = ((fat disk.files s.sid).it (old s.pos)).iv }
  val st_read_r (s: stream) (b sz: int) : real requires { [@expl:bytes of the value] b = sz } writes { s.pos, s.sok }
    ensures { here disk.files s (old s.pos) 1 b -> s.pos = old s.pos + 1 /\ result = ((fat disk.files s.sid).it (old s.pos)).rv }
  val st_read_s (s: stream) (v: str) (b: int) : str requires { [@expl:bytes of the string] 0 <= b <= v.sl } writes { s.pos, s.sok }
    ensures { result.sl = v.sl }
    ensures { here disk.files s (old s.pos) 2 b -> s.pos = old s.pos + 1 /\ forall i. 0 <= i < b -> result.se i = ((fat disk.files s.sid).it (old s.pos)).ie i }
  val st_read_vr (s: stream) (v: vec real) (b sz: int) : unit requires { [@expl:bytes in the buffer] 0 <= b <= sz * v.len } writes { s.pos, s.sok, v }
    ensures { v.len = old v.len }
    ensures { here disk.files s (old s.pos) 3 b -> ((fat disk.files s.sid).it (old s.pos)).unit_ = sz -> s.pos = old s.pos + 1 /\ forall i. 0 <= i -> sz * i + sz <= b -> v.elts i = ((fat disk.files s.sid).it (old s.pos)).re i }
  val vec_same (v u: vec real) : bool ensures { result <-> v.len = u.len /\ forall i. 0 <= i < v.len -> v.elts i = u.elts i }

  (* rasters with everything a cache file keeps *)
  type a2f = { mutable fw: int; mutable fh: int; mutable fxo: int; mutable fyo: int; mutable fnd: real; mutable fndc: int; data: vec real; fnshift: vec int;
               mutable fname: str; fgeo: vec real; mutable fproj: str; mutable fcache: bool }
  predicate geo_ok (e: int -> real) (l: int) = l = 0 \/ l = 6 /\ exists i. 0 <= i < 6 /\ e i <> 0.0
  predicate fok (a: a2f) = dims_ok a.fw a.fh /\ a.data.len = area a.fw a.fh /\ 0 <= a.fproj.sl <= 9223372036854775807 /\ geo_ok a.fgeo.elts a.fgeo.len
  predicate geo_is (re: int -> real) (e: int -> real) (l: int) = geo_ok e l /\ forall i. 0 <= i < 6 -> re i = if l = 6 then e i else 0.0
  predicate wf (f: file) =
    f.n = 10 /\ (f.it 0).kind = 0 /\ (f.it 0).bytes = 4 /\ (f.it 1).kind = 0 /\ (f.it 1).bytes = 4 /\ (f.it 2).kind = 0 /\ (f.it 2).bytes = 4 /\ (f.it 3).kind = 0 /\ (f.it 3).bytes = 4 /\
    (f.it 4).kind = 0 /\ (f.it 4).bytes = 4 /\ (f.it 5).kind = 1 /\ (f.it 5).bytes = 8 /\ (f.it 6).kind = 3 /\ (f.it 6).bytes = 48 /\ (f.it 6).unit_ = 8 /\
    (f.it 7).kind = 0 /\ (f.it 7).bytes = 8 /\ (f.it 8).kind = 2 /\ (f.it 8).bytes = (f.it 7).iv /\ (f.it 9).kind = 3 /\ (f.it 9).unit_ = 8 /\ (f.it 9).bytes = 8 * area (f.it 1).iv (f.it 0).iv /\
    dims_ok (f.it 1).iv (f.it 0).iv /\ 0 <= (f.it 7).iv <= 9223372036854775807
  predicate holds_but_data (f: file) (a: a2f) =
    wf f /\ a.fh = (f.it 0).iv /\ a.fw = (f.it 1).iv /\ a.fxo = (f.it 2).iv /\ a.fyo = (f.it 3).iv /\ a.fndc = (f.it 4).iv /\ a.fnd = (f.it 5).rv /\
    geo_is (f.it 6).re a.fgeo.elts a.fgeo.len /\ a.fproj.sl = (f.it 7).iv /\ (forall i. 0 <= i < a.fproj.sl -> a.fproj.se i = (f.it 8).ie i)
  predicate holds (f: file) (a: a2f) =
    holds_but_data f a /\ a.data.len = area a.fw a.fh /\ (forall i. 0 <= i < a.data.len -> a.data.elts i = (f.it 9).re i)
  (* what a file holds determines the raster *)
  let ghost same_file (f: file) (a b: a2f) : unit requires { holds f a /\ holds f b }
    ensures { a.fw = b.fw /\ a.fh = b.fh /\ a.fxo = b.fxo /\ a.fyo = b.fyo /\ a.fnd = b.fnd /\ a.fndc = b.fndc }
    ensures { a.fgeo.len = b.fgeo.len /\ forall i. 0 <= i < a.fgeo.len -> a.fgeo.elts i = b.fgeo.elts i }
    ensures { a.fproj.sl = b.fproj.sl /\ forall i. 0 <= i < a.fproj.sl -> a.fproj.se i = b.fproj.se i }
    ensures { a.data.len = b.data.len /\ forall i. 0 <= i < a.data.len -> a.data.elts i = b.data.elts i }
  = ()
end

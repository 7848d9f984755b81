-------------------------------- MODULE Buf --------------------------------
(***************************************************************************)
(* Buffers of every class as maps from the indices of their shape to       *)
(* scalars, and the operations on them.                                    *)
(*                                                                         *)
(* A request names an operation, a concrete buffer type and its operands;  *)
(* Expect gives the answer the operation must have.  Requests("C13") and   *)
(* Requests("C19") are the requests that have to be answered.              *)
(***************************************************************************)
EXTENDS Tensor

(* the functions the harness applies element by element (api.rs: f_map, ...) *)
FMap(x) == (3 * x + 7) % P
FMut(x) == (2 * x + 1) % P
FFold(a, x) == (a * 31 + x) % 10007
FZip(x, y) == (5 * x + 3 - 3 * y + 200) % P
FZid(x, y) == (5 * x + 2 * y + 1) % P
FZfold(a, x, y) == (a * 31 + 7 * x + y) % 10007
RECURSIVE FIxR(_, _)
FIxR(ix, a) == IF ix = <<>> THEN a ELSE FIxR(Tail(ix), 10 * a + ix[1])
FIx(ix) == FIxR(ix, 1) % P

(* visiting the entries once each, in row-major order *)
RECURSIVE Fold(_, _, _)
Fold(f(_, _), a, q) == IF q = <<>> THEN a ELSE Fold(f, f(a, q[1]), Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (q[1] + Sum(Tail(q))) % P

(* ---------------------------------------------------------------- answers *)
Ans(k, s, d) == [k |-> k, s |-> s, d |-> d, w |-> <<>>]
Buf(t) == Ans("buf", t.s, t.d)
Num(x) == Ans("num", <<>>, <<x>>)
List(q) == Ans("list", <<>>, q)
Fail(l, r) == Ans("err", l, r)
SpecOf(t) == [k |-> "spec", s |-> t.s, d |-> t.d, w |-> t.s]

MapT(f(_), t) == T(t.s, [p \in 1..Len(t.d) |-> f(t.d[p])])
(* entry p of an operand that may be a scalar *)
Ent(t, p) == IF t.s = <<>> THEN t.d[1] ELSE t.d[p]
ZipT(f(_, _), a, b) ==
  LET s == Broad(a.s, b.s) IN T(s, [p \in 1..Card(s) |-> f(Ent(a, p), Ent(b, p))])
Larger(s) == [i \in 1..Len(s) |-> s[i] + 2]

Expect(r) ==
  LET A == Dense(r.a.k, r.a.s, r.a.d)
      B == Dense(r.b.k, r.b.s, r.b.d)
      s == A.s
  IN
  CASE r.op = "shape" -> List(s)
    [] r.op \in {"map", "map_ref"} -> Buf(MapT(FMap, A))
    [] r.op = "mutate" -> Buf(MapT(FMut, A))
    [] r.op = "fold" -> Num(Fold(FFold, 5, A.d))
    [] r.op = "sum" -> Num(Sum(A.d))
    [] r.op = "get" ->
         List([p \in 1..Card(Larger(s)) |->
                LET ix == Unpos(Larger(s), p - 1) IN IF InShape(s, ix) THEN At(A, ix) ELSE -9])
    [] r.op = "get_unchecked" -> List([p \in 1..Card(s) |-> At(A, Unpos(s, p - 1))])
    [] r.op = "constant" -> Buf(A)
    [] r.op = "build" -> Buf(Build(s, FIx))
    [] r.op = "subset" ->
         Buf(Build(s, LAMBDA ix : IF \E i \in DOMAIN r.sub : r.sub[i] = ix THEN FIx(ix) ELSE B.d[1]))
    [] r.op = "full" -> Buf(Full(s, B.d[1]))
    [] r.op = "zeroes" -> Buf(Full(s, 0))
    [] r.op = "ones" -> Buf(Full(s, 1))
    [] r.op = "diagonal" -> Buf(Diagonal(s, B.d[1]))
    [] r.op = "identity" -> Buf(Diagonal(s, 1))
    [] r.op \in {"unwrap", "clone", "into_spec", "spec_into_spec", "spec_from"} -> SpecOf(A)
    [] r.op = "spec_map" -> SpecOf(MapT(FMap, A))
    [] r.op = "spec_zeroes" -> SpecOf(Full(s, 0))
    [] r.op = "spec_ones" -> SpecOf(Full(s, 1))
    [] r.op = "spec_eye" -> SpecOf(Diagonal(s, 1))
    [] r.op \in {"zip_map", "zip_map_id", "zip_mut", "zip_shape", "zip_fold", "spec_zip"}
         /\ ~Compatible(A.s, B.s) -> Fail(A.s, B.s)
    [] r.op = "zip_map" -> Buf(ZipT(FZip, A, B))
    [] r.op \in {"zip_map_id", "zip_mut"} -> Buf(ZipT(FZid, A, B))
    [] r.op = "zip_shape" -> Buf(ZipT(LAMBDA x, y : x, A, B))
    [] r.op = "zip_fold" ->
         Num(Fold(LAMBDA a, p : FZfold(a, Ent(A, p), Ent(B, p)), 5, [p \in 1..Card(Broad(A.s, B.s)) |-> p]))
    [] r.op = "spec_zip" -> SpecOf(ZipT(FZip, A, B))

(* --------------------------------------------------------------- requests *)
Low == {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>,
        <<2, 3>>, <<3, 2>>, <<3, 3>>, <<8>>, <<9>>, <<17>>, <<4, 5>>, <<9, 2>>}
High == {<<2, 2, 2>>, <<2, 3, 1>>, <<1, 2, 3>>, <<2, 0, 2>>, <<3, 2, 2>>, <<2, 2, 2, 2>>, <<1, 2, 3, 2>>,
         <<2, 1, 2, 3>>, <<2, 2, 2, 2, 2>>, <<2, 1, 2, 3, 2>>, <<1, 2, 1, 3, 2>>}
Prims == {"f32", "f64", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "z"}
Lens == (0..4) \cup {7, 8, 9, 17, 33}
(* "mats" is a class of the harness' own, which leaves everything it can to  *)
(* the default methods of the traits                                         *)
MatDims == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 5>>}
Types ==
  [cls : {"scalars"}, f : Prims, s : {<<>>}]
  \cup [cls : {"tuples"}, f : {"i64", "f64", "u8", "z"}, s : {<<2>>}]
  \cup [cls : {"vecs"}, f : {"i64", "f64", "u8", "z"}, s : {<<n>> : n \in Lens}]
  \cup [cls : {"mats"}, f : {"i64", "f64"}, s : MatDims]
  \cup [cls : {"arrays"}, f : {"i64", "f64", "u8"}, s : Low]
  \cup [cls : {"arrays"}, f : {"i64", "f64"}, s : High]

R(t, op, rel, ak, as, bk, bs) ==
  [cls |-> t.cls, f |-> t.f, s |-> t.s, op |-> op, rel |-> rel, ak |-> ak, as |-> as, bk |-> bk, bs |-> bs]
One(t, op, k) == R(t, op, "", k, t.s, "raw", <<>>)
Zips(t) == {"zip_map", "zip_map_id", "zip_shape", "zip_fold"} \cup (IF t.cls = "arrays" THEN {"zip_mut"} ELSE {})
ZipsR(t) == {"zip_map", "zip_map_id", "zip_shape"} \cup (IF t.cls = "arrays" THEN {"zip_mut", "zip_fold"} ELSE {})
ZipsL == {"zip_map", "zip_map_id", "zip_shape"}
Mixed(t) == t.cls \in {"vecs", "arrays", "mats"}
Kinds == {"raw", "full", "diag"}

Requests(area) ==
  CASE area = "C13" ->
         {One(t, op, "raw") : t \in Types,
            op \in {"shape", "map", "map_ref", "mutate", "fold", "sum", "get", "get_unchecked", "constant"}}
         \cup UNION {{R(t, op, "", "raw", t.s, "raw", t.s) : op \in Zips(t)} : t \in Types}
         \cup UNION {{R(t, op, "right", "raw", t.s, "raw", <<>>) : op \in ZipsR(t)} : t \in {t \in Types : Mixed(t)}}
         \cup UNION {{R(t, op, "left", "raw", <<>>, "raw", t.s) : op \in ZipsL} : t \in {t \in Types : Mixed(t)}}
         \cup {R(t, op, "", "raw", t.s, "raw", <<n>>) :
                 t \in {t \in Types : t.cls = "vecs"}, op \in {"zip_map", "zip_map_id", "zip_shape", "zip_fold"}, n \in 0..4}
         \cup {R(t, op, "", "raw", t.s, "raw", s) : t \in {t \in Types : t.cls = "mats"},
                 op \in {"zip_map", "zip_map_id", "zip_shape", "zip_fold"}, s \in {<<0, 0>>, <<2, 3>>, <<3, 2>>, <<2, 2>>}}
    [] area = "C19" ->
         {One(t, op, "raw") : t \in Types,
            op \in {"build", "subset", "full", "zeroes", "ones", "diagonal", "identity", "into_spec", "spec_from",
                    "spec_zeroes", "spec_ones", "spec_eye"}}
         \cup {One(t, op, k) : t \in Types, op \in {"unwrap", "clone", "spec_map", "spec_into_spec"}, k \in Kinds}
         \cup {R(t, "spec_zip", "", k, t.s, l, t.s) : t \in Types, k \in Kinds, l \in Kinds}
         \cup {R(t, "spec_zip", "right", k, t.s, l, <<>>) : t \in {t \in Types : Mixed(t)}, k \in Kinds, l \in Kinds}
         \cup {R(t, "spec_zip", "left", k, <<>>, l, t.s) : t \in {t \in Types : Mixed(t)}, k \in Kinds, l \in Kinds}
         \cup {R(t, "spec_zip", "", k, t.s, l, <<n>>) :
                 t \in {t \in Types : t.cls = "vecs"}, k \in Kinds, l \in Kinds, n \in 0..4}
         \cup {R(t, "spec_zip", "", k, t.s, l, s) :
                 t \in {t \in Types : t.cls = "mats"}, k \in Kinds, l \in Kinds, s \in {<<2, 3>>, <<3, 2>>, <<2, 2>>}}
=============================================================================

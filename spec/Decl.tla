-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* What the declaration macros generate: contexts (C09), operators that    *)
(* answer membership queries (C10) and identifiers (C18).                  *)
(*                                                                         *)
(* TLC enumerates declarations, the driver writes them out as Rust, and    *)
(* TLC judges what the generated code does.                                *)
(***************************************************************************)
EXTENDS Ctx

(* ------------------------------------------------------------- contexts *)
(* a field: how it is typed, its class of buffer, plain / cache / without identifier *)
Classes == {"f64", "i32", "arr", "mat", "pair", "vec", "t3"}
SomeClasses == {"f64", "arr", "mat", "vec"}
Typed(cs) == {[ty |-> "conc", cls |-> c] : c \in cs} \cup {[ty |-> "own", cls |-> c] : c \in cs \cap SomeClasses}
             \cup {[ty |-> "shared", cls |-> "arr"], [ty |-> "gvec", cls |-> "vec"], [ty |-> "garr", cls |-> "arr"]}
Fields(cs) == {[role |-> r, ty |-> t.ty, cls |-> t.cls] : r \in {"plain", "cache"}, t \in Typed(cs)}
              \cup {[role |-> "free", ty |-> "conc", cls |-> c] : c \in {"str", "string", "option", "f64"}}
Few(cs) == {[role |-> r, ty |-> t.ty, cls |-> t.cls] : r \in {"plain", "cache"}, t \in {x \in Typed(cs) : x.ty # "own" \/ x.cls = "mat"}}
           \cup {[role |-> "free", ty |-> "conc", cls |-> "str"]}
OwnFields(cs, rs) == {[role |-> r, ty |-> "own", cls |-> c] : r \in rs, c \in cs}
Seqs(S, n) == [1..n -> S]
Contexts ==
  {[style |-> "derive", fields |-> f] : f \in Seqs(Fields(Classes), 1) \cup Seqs(Fields(SomeClasses), 2) \cup Seqs(Few({"f64", "arr"}), 3)}
  \cup {[style |-> "type", fields |-> f] : f \in Seqs(OwnFields(Classes, {"plain", "cache"}), 1) \cup Seqs(OwnFields(SomeClasses, {"plain", "cache"}), 2)
                                                 \cup Seqs(OwnFields({"f64", "arr", "vec"}, {"plain", "cache"}), 3)}
  (* written by hand: only read and write are given, the rest are the traits' own *)
  \cup {[style |-> "hand", fields |-> f] : f \in Seqs(OwnFields(Classes, {"plain", "cache"}), 1) \cup Seqs(OwnFields(SomeClasses, {"plain", "cache"}), 2)}
  \cup {[style |-> "ctx", fields |-> f] : f \in Seqs(OwnFields(Classes, {"plain"}), 1) \cup Seqs(OwnFields(Classes, {"plain"}), 2)
                                                \cup Seqs(OwnFields({"f64", "arr", "vec"}, {"plain"}), 3)}

(* what is seen of one identifier when it holds v: read, read_spec, read_shape,
   the field itself, evaluation and shape of the variable *)
Seen(v) == <<v, v, ShapeOnly(v), v, v, ShapeOnly(v)>>
RECURSIVE Run(_, _, _, _)
(* positions of the snapshots that are wrong, when st holds before event k *)
Run(r, k, st, ans) ==
  LET snap == r.out[k]
      bad == (IF \E i \in DOMAIN st : snap.ids[i] # Seen(st[i]) THEN {"read"} ELSE {})
             \cup (IF snap.ans # ans THEN {"answer"} ELSE {})
             \cup (IF snap.free # r.free THEN {"free"} ELSE {})
  IN bad \cup (IF k > Len(r.ops) THEN {}
               ELSE Run(r, k + 1, After(st, r.ops[k]), Answer(st, r.ops[k])))
CtxTags(r) == IF Len(r.out) # Len(r.ops) + 1 THEN {"panic"} ELSE Run(r, 1, Initial(r.caches, r.init), Undef)

(* ---------------------------------------------------------- identifiers *)
(* names and symbols are sequences of code points *)
Names == {"P", "Q", "R", "Left"}
Symbols == {"none", "id:p", "id:q", "id:P", "id:Left", "id:r_1", "str:", "str:x", "str:Q", "str:x y", "str:{}", "str:{{", "str:a{0}b}", "str:100%",
            "str:q\"q", "str:b\\n", "str:sigma", "str:smile", "str:x1"}
Lists(n) == {[names |-> f, syms |-> g] : f \in {h \in Seqs(Names, n) : \A i, j \in 1..n : i # j => h[i] # h[j]}, g \in Seqs(Symbols, n)}
Idents == Lists(1) \cup Lists(2)
          \cup {[names |-> f, syms |-> g] : f \in {<<"P", "Q", "R">>, <<"Left", "R", "P">>}, g \in Seqs({"none", "id:p", "id:q", "str:x y", "id:P", "str:{}"}, 3)}

(* lower-case letters: the code points skip the second form of sigma *)
GreekPoint(i) == 944 + i + (IF i >= 18 THEN 1 ELSE 0)
Predefined == [i \in 1..26 |-> <<96 + i>>] \o [i \in 1..24 |-> <<GreekPoint(i)>>]
(* the symbol that was given, or the name *)
Want(r) == IF r.what = "predefined" THEN Predefined
           ELSE [i \in DOMAIN r.names |-> IF r.given[i] = <<>> THEN r.names[i] ELSE r.given[i][1]]

IdentTags(r) ==
  LET want == Want(r)
      n == Len(want)
      o == r.out
      Same(m) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n /\ \A j \in 1..n : m[i][j] = (i = j)
      Other(m) == \A i, j \in 1..n : m[i][j] = (i # j)
  IN (IF o.shown = want /\ o.vars = want THEN {} ELSE {"symbol"})
     \cup (IF Same(o.eq) /\ Other(o.ne) THEN {} ELSE {"equality"})
     \cup (IF Same(o.has) THEN {} ELSE {"membership"})
     \cup (IF Same(o.slope) THEN {} ELSE {"slope"})
     \cup (IF o.look = [i \in 1..n |-> i] THEN {} ELSE {"look-up"})

(* ------------------------------------------------------------ operators *)
(* operands: variables x, y, z, constants, sums, caches, nested user operators *)
Operands == {<<"const">>, <<"var", 1>>, <<"var", 2>>, <<"add", <<"var", 3>>, <<"const">>>>, <<"cached", <<"var", 2>>, 4>>,
             <<"user", <<"const">>, <<"var", 1>>>>, <<"neg", <<"var", 3>>>>}
Leaves == {<<"const">>, <<"var", 1>>}
Operators ==
  {[style |-> s, args |-> a] : s \in {"tuple", "named"},
                               a \in Seqs(Operands, 1) \cup Seqs(Operands, 2) \cup Seqs({o \in Operands : Len(o) # 2 \/ o[1] = "var"}, 3)
                                     \cup Seqs(Leaves, 4) \cup Seqs(Leaves, 5)}
RECURSIVE Occurs(_, _)
Occurs(e, i) ==
  CASE e[1] = "const" -> FALSE
    [] e[1] = "var" -> e[2] = i
    [] e[1] = "cached" -> e[3] = i \/ Occurs(e[2], i)
    [] OTHER -> \E k \in 2..Len(e) : Occurs(e[k], i)
OpTags(r) ==
  IF \A i \in 1..4 : r.out[i] = (\E k \in DOMAIN r.args : Occurs(r.args[k], i)) THEN {} ELSE {"membership"}

Requests(area) == CASE area = "C09" -> Contexts [] area = "C18" -> Idents [] area = "C10" -> Operators
Tags(r) == CASE r.what = "ctx" -> CtxTags(r) [] r.what \in {"ids", "predefined"} -> IdentTags(r) [] r.what = "op" -> OpTags(r)
=============================================================================

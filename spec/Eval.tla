-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation as a state transition of the context.                        *)
(*                                                                         *)
(* A context is a function from the defined identifiers to cells           *)
(* [k, s, d]: the form the source provides (raw, full, diag) and the       *)
(* buffer it denotes.  Evaluation goes through the operands from left to   *)
(* right, stops at the first failure, and fills empty cache slots on its   *)
(* way.                                                                    *)
(***************************************************************************)
EXTENDS Expr

Cell(k, t) == [k |-> k, s |-> t.s, d |-> t.d]
Start(c) == [c |-> c, p |-> <<>>, may |-> {}, unk |-> FALSE]

Fine(v, st) == [ok |-> TRUE, v |-> v, st |-> st, path |-> <<>>, leaf |-> <<>>]
Fail(p, l, st) == [ok |-> FALSE, v |-> <<>>, st |-> st, path |-> p, leaf |-> l]
Under(x, r) == [r EXCEPT !.path = <<x>> \o @]

Bump(p, k) == LET n == ToString(k) IN
              IF n \in DOMAIN p THEN [p EXCEPT ![n] = @ + 1] ELSE p @@ (n :> 1)

RECURSIVE Ev(_, _)
Ev(e, st) ==
  CASE e[1] = "var" ->
         IF e[2] \in DOMAIN st.c THEN Fine(T(st.c[e[2]].s, st.c[e[2]].d), st)
         ELSE Fail(<<>>, <<"undef", e[2]>>, st)
    [] e[1] = "const" -> Fine(T(e[3], e[4]), st)
    [] e[1] = "sconst" -> Fine(Dense(e[3], e[4], e[5]), st)
    [] e[1] = "cache" ->
         IF e[2] \in DOMAIN st.c THEN Fine(T(st.c[e[2]].s, st.c[e[2]].d), st)
         ELSE LET r == Ev(e[3], st)
              IN IF ~r.ok THEN r
                 ELSE [r EXCEPT !.st.c = (e[2] :> Cell("raw", r.v)) @@ @]
    [] e[1] = "probe" -> Ev(e[3], [st EXCEPT !.p = Bump(@, e[2])])
    [] e[1] = "adj" ->
         \* the derivative reuses sub-expressions of e, memoised ones included: any of
         \* the empty slots may get filled, with what its own evaluation would give
         LET need == Vars(e[3]) \cup {e[2]}
             miss == need \ DOMAIN st.c
             cs == Caches(e[3])
             vals == {<<c[1], Ev(c[2], st)>> : c \in cs}
             may == {<<v[1], v[2].v>> : v \in {w \in vals : w[2].ok}}
             stale == \E c \in cs : c[1] \in DOMAIN st.c /\ ~TAgree(Den(0, c[2], st.c), st.c[c[1]])
             st2 == [st EXCEPT !.may = @ \cup may]
         IN IF miss # {}
            THEN IF e[3][1] # "var" THEN Fail(<<>>, <<"any", miss>>, st2)
                 \* the derivative of a variable: first the variable, then the target
                 ELSE IF e[3][2] \in miss THEN Fail(<<"L">>, <<"undef", e[3][2]>>, st2)
                 ELSE Fail(<<"R">>, <<"undef", e[2]>>, st2)
            ELSE Fine(Adj(e[2], e[3], st.c), [st2 EXCEPT !.unk = @ \/ stale])
    [] IsBinary(e) ->
         LET l == Ev(e[2], st) IN
         IF ~l.ok THEN Under("L", l)
         ELSE LET r == Ev(e[3], l.st) IN
         IF ~r.ok THEN Under("R", r)
         ELSE CASE e[1] = "pow" ->
                     IF Compatible(l.v.s, r.v.s)
                     THEN Fine(TZip(0, "pow", l.v, r.v), r.st)
                     ELSE Fail(<<"O">>, <<"inc", l.v.s, r.v.s>>, r.st)
                [] e[1] = "tprod" -> Fine(TProd(0, l.v, r.v), r.st)
                [] e[1] = "dot" ->
                     IF DotCompatible(l.v.s, r.v.s) THEN Fine(TDot(0, l.v, r.v), r.st)
                     ELSE Fail(<<"O">>, <<"inc", l.v.s, r.v.s>>, r.st)
                [] OTHER ->
                     IF Compatible(l.v.s, r.v.s) THEN Fine(TZip(0, e[1], l.v, r.v), r.st)
                     ELSE Fail(<<"O">>, <<"inc", l.v.s, r.v.s>>, r.st)
    [] OTHER ->
         LET x == Ev(e[2], st)
         IN IF ~x.ok THEN x
            ELSE Fine(IF e[1] = "sum" THEN TSum(0, x.v) ELSE TMap(0, e[1], x.v), x.st)

(* evaluation of the adjoint of e with respect to t *)
EvAdj(e, t, st) == Ev(<<"adj", t, e>>, st)

(* value and adjoint together *)
EvDual(e, t, st) ==
  LET v == Ev(e, st) IN
  IF ~v.ok THEN Under("L", v)
  ELSE LET a == EvAdj(e, t, v.st) IN
  IF ~a.ok THEN Under("R", a) ELSE [a EXCEPT !.v = <<v.v, a.v>>]

(* membership; cache slots under an adjoint may or may not survive *)
Has(e, id) == id \in (Vars(e) \cup Slots(e))
HasKnown(e, id) == id \in Vars(e) \/ id \notin {c[1] : c \in CachesInAdj(e)}
=============================================================================

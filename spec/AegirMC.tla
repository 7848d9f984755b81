------------------------------- MODULE AegirMC ------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is the context; a step       *)
(* evaluates an expression (value, adjoint, both, shape) or changes the    *)
(* context from outside.  TLC explores every history of K steps over the   *)
(* operations of a scenario, checks the properties below on every step,    *)
(* and prints the histories; each is then replayed through the             *)
(* implementation and judged by Trace.tla.                                 *)
(***************************************************************************)
EXTENDS Eval, Json, IOUtils

Scen == IOEnv.SCEN
K == atoi(IOEnv.DEPTH)

V(i) == <<"var", i>>
C(n) == <<"const", "S", <<>>, <<n>>>>
Sc(x) == [k |-> "raw", s |-> <<>>, d |-> <<x>>]
Ve(d) == [k |-> "raw", s |-> <<Len(d)>>, d |-> d]
O1(op, e) == [op |-> op, e |-> e]
O2(op, e, id) == [op |-> op, e |-> e, id |-> id]
Set(id, v) == [op |-> "set", id |-> id, v |-> v]
Clr(id) == [op |-> "clr", id |-> id]

(* ---- scenario "cache": slots that are shared, nested, cleared, overwritten *)
Sum01(p) == <<"cache", "S5", <<"probe", p, <<"add", V("S0"), V("S1")>>>>>>
CacheExprs == << <<"mul", Sum01(1), Sum01(1)>>,
                 <<"add", <<"cache", "S6", <<"probe", 2, <<"mul", Sum01(1), V("S2")>>>>>>, V("S0")>> >>
CacheOps == << O1("eval", 1), O1("eval", 2), O2("evadj", 1, "S0"), O2("dual", 2, "S1"), Set("S0", Sc(4)),
               Set("S2", Sc(3)), Clr("S2"), Clr("S5"), Clr("S6"), Set("S5", Sc(9)), Clr("S0") >>
CacheInits == << ("S0" :> Sc(2)) @@ ("S1" :> Sc(5)) >>

(* ---- scenario "hist": several expressions over one context *)
HistExprs == << <<"mul", V("S0"), <<"exp", V("S1")>>>>,
                <<"add", <<"square", V("S0")>>, <<"sin", V("S1")>>>>,
                <<"sub", <<"mul", V("A0"), V("S0")>>, <<"tprod", V("S1"), V("A0")>>>> >>
HistOps == << O1("eval", 1), O2("dual", 1, "S0"), O2("evadj", 2, "S1"), O1("eval", 3), O2("dual", 3, "S1"),
              Set("S0", Sc(7)), Set("S1", Sc(11)), Set("A0", Ve(<<1, 6>>)), Clr("S1"), O1("clone", 2), O1("spec", 3) >>
HistInits == << ("S0" :> Sc(3)) @@ ("S1" :> Sc(5)) @@ ("A0" :> Ve(<<8, 13>>)) >>

(* ---- scenario "fail": every combination of undefined and mis-sized inputs *)
Bin == <<"add", "sub", "mul", "div">>
L(i) == V("L" \o ToString(i))
Sx(i) == V("S" \o ToString(i))
Flat(q) == LET RECURSIVE G(_)
               G(i) == IF i = 0 THEN <<>> ELSE G(i - 1) \o q[i] IN G(Len(q))
FailExprs ==
  Flat([i \in 1..4 |-> LET b == Bin[i]  c == Bin[(i % 4) + 1] IN
    << <<b, L(0), L(1)>>, <<b, <<c, L(0), L(1)>>, L(2)>>, <<b, L(0), <<c, L(1), L(2)>>>>,
       <<b, <<"neg", L(1)>>, <<"addone", L(0)>>>>, <<b, Sx(0), L(0)>>, <<b, L(1), Sx(1)>>,
       <<b, <<c, Sx(0), L(0)>>, <<c, L(1), Sx(1)>>>>, <<b, Sx(1), Sx(0)>>,
       <<"sum", <<b, L(2), L(1)>>>>, <<b, <<"sum", L(1)>>, L(0)>>, <<b, L(0), <<"sum", <<c, L(1), L(0)>>>>>>,
       <<"square", <<b, <<"exp", L(2)>>, L(0)>>>> >>])
  \o << <<"pow", Sx(0), Sx(1)>>, <<"pow", <<"sum", L(0)>>, <<"add", Sx(1), Sx(0)>>>>,
        <<"tprod", Sx(1), Sx(0)>>, <<"dot", <<"add", Sx(0), Sx(1)>>, <<"sum", L(1)>>>>,
        <<"mul", <<"cache", "L5", <<"add", L(0), L(1)>>>>, Sx(0)>>,
        <<"probe", 1, <<"sub", L(1), <<"cache", "L6", L(2)>>>>>> >>
FailOps == [i \in 1..Len(FailExprs) |-> O1("eval", i)]
FailInits ==
  LET S01 == {<<a, b>> : a \in 0..1, b \in 0..1}
      L012 == {<<a, b, c>> : a \in 0..2, b \in 0..2, c \in 0..2}
      One(id, n, v) == IF n = 0 THEN <<>> ELSE id :> v
      Vec(n) == IF n = 1 THEN Ve(<<3>>) ELSE Ve(<<4, 7>>)
      Mk(s, l) == One("S0", s[1], Sc(2)) @@ One("S1", s[2], Sc(3)) @@ One("L0", l[1], Vec(l[1]))
                  @@ One("L1", l[2], Vec(l[2])) @@ One("L2", l[3], Vec(l[3]))
      RECURSIVE List(_)
      List(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o List(X \ {x})
  IN List({Mk(s, l) : s \in S01, l \in L012})

Exprs == CASE Scen = "cache" -> CacheExprs [] Scen = "hist" -> HistExprs [] OTHER -> FailExprs
Ops == CASE Scen = "cache" -> CacheOps [] Scen = "hist" -> HistOps [] OTHER -> FailOps
Inits == CASE Scen = "cache" -> CacheInits [] Scen = "hist" -> HistInits [] OTHER -> FailInits

VARIABLES ctx, ini, hist, last
vars == <<ctx, ini, hist, last>>

Obs(r) == IF r.ok THEN <<"ok", r.v>> ELSE <<"err", r.path, r.leaf>>

(* what an operation may return and leave behind *)
Outcome(o) ==
  CASE o.op = "set" -> {<<(o.id :> o.v) @@ ctx, <<>>>>}
    [] o.op = "clr" -> {<<[i \in DOMAIN ctx \ {o.id} |-> ctx[i]], <<>>>>}
    [] o.op = "clone" -> {<<ctx, <<>>>>}
    [] OTHER ->
         LET e == Exprs[o.e]
             r == CASE o.op = "evadj" -> EvAdj(e, o.id, Start(ctx))
                    [] o.op = "dual" -> EvDual(e, o.id, Start(ctx))
                    [] OTHER -> Ev(e, Start(ctx))
             free == {m \in r.st.may : m[1] \notin DOMAIN r.st.c}
         IN {<<[i \in {m[1] : m \in f} |-> Cell("raw", (CHOOSE m \in f : m[1] = i)[2])] @@ r.st.c, Obs(r)>> : f \in SUBSET free}

Init == /\ ini \in 1..Len(Inits) /\ ctx = Inits[ini] /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < K
        /\ \E k \in 1..Len(Ops) : \E x \in Outcome(Ops[k]) :
             /\ ctx' = x[1] /\ last' = x[2] /\ hist' = Append(hist, k) /\ ini' = ini
             /\ Len(hist') = K => PrintT(<<"H", ini, hist'>>)
Spec == Init /\ [][Next]_vars

(* ------------------------- properties of the model ------------------------ *)
Evals == {"eval", "evadj", "dual", "spec"}
LastOp == Ops[hist'[Len(hist')]]
AllSlots == UNION {Slots(Exprs[i]) : i \in 1..Len(Exprs)}

(* in scenario "fail" only the initial contexts differ *)
Quiet == Scen = "fail" /\ hist # <<>>

(* evaluation writes to empty slots and to nothing else *)
OnlySlots == [][LastOp.op \in Evals =>
                  /\ \A i \in DOMAIN ctx : i \in DOMAIN ctx' /\ ctx'[i] = ctx[i]
                  /\ DOMAIN ctx' \ DOMAIN ctx \subseteq Slots(Exprs[LastOp.e])]_vars
(* evaluating again gives the same *)
Repeatable == [][LastOp.op = "eval" =>
                   Obs(Ev(Exprs[LastOp.e], Start(ctx'))) = last']_vars
(* memoising changes nothing while every filled slot holds the value of what it memoises *)
RECURSIVE Strip(_)
Strip(e) == CASE e[1] \in {"var", "const", "sconst"} -> e
              [] e[1] = "cache" -> Strip(e[3])
              [] e[1] = "probe" -> Strip(e[3])
              [] e[1] = "adj" -> <<"adj", e[2], Strip(e[3])>>
              [] IsBinary(e) -> <<e[1], Strip(e[2]), Strip(e[3])>>
              [] OTHER -> <<e[1], Strip(e[2])>>
Fresh(e) == \A c \in Caches(e) : c[1] \in DOMAIN ctx =>
              LET r == Ev(Strip(c[2]), Start(ctx)) IN r.ok /\ TAgree(r.v, ctx[c[1]])
Transparent == Quiet \/ \A i \in 1..Len(Exprs) :
                 Fresh(Exprs[i]) => Obs(Ev(Exprs[i], Start(ctx))) = Obs(Ev(Strip(Exprs[i]), Start(ctx)))
(* at most one evaluation per slot, none if it is filled *)
Once == Quiet \/ \A i \in 1..Len(Exprs) :
          LET p == Ev(Exprs[i], Start(ctx)).st.p IN
          \A c \in Caches(Exprs[i]) : c[2][1] = "probe" =>
            LET n == ToString(c[2][2]) IN
            n \in DOMAIN p => p[n] <= (IF c[1] \in DOMAIN ctx THEN 0 ELSE 1)
(* value and adjoint together are value and adjoint apart *)
Joint == [][LastOp.op = "dual" /\ last'[1] = "ok" =>
              /\ last'[2][1] = Ev(Exprs[LastOp.e], Start(ctx)).v
              /\ TAgree(EvAdj(Exprs[LastOp.e], LastOp.id, Start(ctx)).v, last'[2][2])]_vars
(* an expression fails iff some variable that it reads is missing or sizes clash *)
FailsForAReason == Quiet \/ \A i \in 1..Len(Exprs) :
  LET r == Ev(Exprs[i], Start(ctx)) IN
  (Vars(Exprs[i]) \subseteq DOMAIN ctx /\ ~r.ok) => r.leaf[1] = "inc"

Dump == PrintT(<<"SCEN", ToJson([exprs |-> Exprs, ops |-> Ops, inits |-> Inits])>>)
ASSUME Dump
=============================================================================

-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions and what they denote.                                       *)
(*                                                                         *)
(*   <<"var", id>>                 the buffer the context holds for id     *)
(*   <<"const", sort, s, d>>       a constant buffer                       *)
(*   <<"sconst", sort, k, s, d>>   a constant given in structured form     *)
(*   <<"cache", id, e>>            e, memoised in the slot id              *)
(*   <<"probe", k, e>>             e; evaluations are counted under k      *)
(*                                 (0: not counted, and every evaluation   *)
(*                                 route is the default one)               *)
(*   <<"adj", id, e>>              the derivative of e w.r.t. id           *)
(*   <<op, e>>, <<op, l, r>>       an operator                             *)
(***************************************************************************)
EXTENDS Tensor

Op(e) == e[1]
IsUnary(e) == Len(e) = 2 /\ e[1] # "var"
Binaries == {"add", "sub", "mul", "div", "pow", "tprod", "dot"}
IsBinary(e) == e[1] \in Binaries

(* identifiers occurring as variables / as cache slots *)
RECURSIVE Vars(_), Slots(_), HasAdj(_), AdjDepth(_)
Vars(e) == CASE e[1] = "var" -> {e[2]}
             [] e[1] \in {"const", "sconst"} -> {}
             [] e[1] \in {"cache", "probe"} -> Vars(e[3])
             [] e[1] = "adj" -> Vars(e[3]) \cup {e[2]}
             [] IsBinary(e) -> Vars(e[2]) \cup Vars(e[3])
             [] OTHER -> Vars(e[2])
Slots(e) == CASE e[1] \in {"var", "const", "sconst"} -> {}
              [] e[1] = "cache" -> {e[2]} \cup Slots(e[3])
              [] e[1] \in {"adj", "probe"} -> Slots(e[3])
              [] IsBinary(e) -> Slots(e[2]) \cup Slots(e[3])
              [] OTHER -> Slots(e[2])
HasAdj(e) == CASE e[1] \in {"var", "const", "sconst"} -> FALSE
               [] e[1] = "adj" -> TRUE
               [] e[1] \in {"cache", "probe"} -> HasAdj(e[3])
               [] IsBinary(e) -> HasAdj(e[2]) \/ HasAdj(e[3])
               [] OTHER -> HasAdj(e[2])
AdjDepth(e) == CASE e[1] \in {"var", "const", "sconst"} -> 0
                 [] e[1] = "adj" -> 1 + AdjDepth(e[3])
                 [] e[1] \in {"cache", "probe"} -> AdjDepth(e[3])
                 [] IsBinary(e) -> LET a == AdjDepth(e[2])  b == AdjDepth(e[3]) IN IF a > b THEN a ELSE b
                 [] OTHER -> AdjDepth(e[2])

(* slots with the expression each memoises *)
RECURSIVE Caches(_)
Caches(e) == CASE e[1] \in {"var", "const", "sconst"} -> {}
               [] e[1] = "cache" -> {<<e[2], e[3]>>} \cup Caches(e[3])
               [] e[1] \in {"adj", "probe"} -> Caches(e[3])
               [] IsBinary(e) -> Caches(e[2]) \cup Caches(e[3])
               [] OTHER -> Caches(e[2])

(* those under an adjoint only *)
RECURSIVE CachesInAdj(_)
CachesInAdj(e) == CASE e[1] \in {"var", "const", "sconst"} -> {}
                    [] e[1] = "adj" -> Caches(e[3])
                    [] e[1] \in {"cache", "probe"} -> CachesInAdj(e[3])
                    [] IsBinary(e) -> CachesInAdj(e[2]) \cup CachesInAdj(e[3])
                    [] OTHER -> CachesInAdj(e[2])

(***************************************************************************)
(* Denotation at jet level n.  env maps identifiers to tensors of jets of  *)
(* level n.  Only defined when every variable is defined and all shapes    *)
(* fit.  A memoised expression denotes what it memoises.                   *)
(***************************************************************************)
LiftT(n, t, k) == T(t.s, [p \in 1..Len(t.d) |-> JLift(n, t.d[p], IF p = k THEN 1 ELSE 0)])
LiftC(n, t) == T(t.s, [p \in 1..Len(t.d) |-> JC(n, t.d[p])])

RECURSIVE Den(_, _, _)
Den(n, e, env) ==
  CASE e[1] = "var" -> env[e[2]]
    [] e[1] = "const" -> LiftC(n, T(e[3], e[4]))
    [] e[1] = "sconst" -> LiftC(n, Dense(e[3], e[4], e[5]))
    [] e[1] \in {"cache", "probe"} -> Den(n, e[3], env)
    [] e[1] = "adj" ->
         LET ids == Vars(e[3])
             tv == env[e[2]]
             c == Card(tv.s)
             Run(k) == Den(n + 1, e[3],
                           [id \in ids |-> LiftT(n, env[id], IF id = e[2] THEN k ELSE 0)])
             rs == [k \in 1..c |-> Run(k)]
             s == rs[1].s
         IN T(s \o tv.s, [p \in 1..(Card(s) * c) |-> rs[((p - 1) % c) + 1].d[((p - 1) \div c) + 1][2]])
    [] e[1] = "pow" -> LET a == Den(n, e[2], env)  b == Den(n, e[3], env)
                       IN T(<<>>, <<JPow(n, a.d[1], b.d[1], Vars(e[3]) # {})>>)
    [] e[1] = "tprod" -> TProd(n, Den(n, e[2], env), Den(n, e[3], env))
    [] e[1] = "dot" -> TDot(n, Den(n, e[2], env), Den(n, e[3], env))
    [] IsBinary(e) -> TZip(n, e[1], Den(n, e[2], env), Den(n, e[3], env))
    [] e[1] = "sum" -> TSum(n, Den(n, e[2], env))
    [] OTHER -> TMap(n, e[1], Den(n, e[2], env))

Adj(t, e, env) == Den(0, <<"adj", t, e>>, env)
=============================================================================

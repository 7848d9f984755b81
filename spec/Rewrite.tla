------------------------------ MODULE Rewrite ------------------------------
(***************************************************************************)
(* The library differentiates by rewriting: adjoint(t) of a node is a tree *)
(* of nodes.  Rw(e, t) is that tree for every node type, RTy says which    *)
(* trees the library's type rules let be evaluated (shape, buffer class),  *)
(* and RDen what they denote.                                              *)
(*                                                                         *)
(* Two nodes exist only in such trees:                                     *)
(*   <<"vadj", id, t>>  the derivative of a variable                       *)
(*   <<"cadj", e, t>>   the derivative of a constant                       *)
(***************************************************************************)
EXTENDS Expr

SortShape == [S |-> <<>>, A |-> <<2>>, B |-> <<3>>, M |-> <<2, 3>>, N |-> <<3, 2>>, Q |-> <<2, 2>>, R |-> <<3, 3>>,
              K |-> <<2, 1, 3>>, W |-> <<1, 4>>, T |-> <<2>>]
SortOf(id) == CHOOSE k \in DOMAIN SortShape : \E i \in 0..9 : id = k \o ToString(i)

RBin == Binaries
RLeaf == {"var", "const", "sconst", "vadj", "cadj"}

RECURSIVE Rw(_, _)
Rw(e, t) ==
  CASE e[1] = "var" -> <<"vadj", e[2], t>>
    [] e[1] \in {"const", "sconst", "vadj", "cadj"} -> <<"cadj", e, t>>
    [] e[1] = "cache" -> Rw(e[3], t)
    [] e[1] = "adj" -> Rw(Rw(e[3], e[2]), t)
    [] e[1] \in {"add", "sub"} -> <<e[1], Rw(e[2], t), Rw(e[3], t)>>
    [] e[1] = "mul" -> <<"add", <<"mul", Rw(e[2], t), e[3]>>, <<"mul", Rw(e[3], t), e[2]>>>>
    [] e[1] = "div" -> <<"div", <<"sub", <<"mul", e[3], Rw(e[2], t)>>, <<"mul", e[2], Rw(e[3], t)>>>>, <<"square", e[3]>>>>
    [] e[1] = "pow" -> <<"mul", <<"pow", e[2], <<"subone", e[3]>>>>,
                         <<"add", <<"mul", e[3], Rw(e[2], t)>>, <<"mul", <<"xlnx", e[2]>>, Rw(e[3], t)>>>>>>
    [] e[1] \in {"tprod", "dot"} -> <<"add", <<e[1], e[2], Rw(e[3], t)>>, <<e[1], Rw(e[2], t), e[3]>>>>
    [] e[1] \in {"addone", "subone", "sum"} -> Rw(e[2], t)
    [] e[1] \in {"onesub", "neg"} -> <<"neg", Rw(e[2], t)>>
    [] e[1] = "square" -> <<"mul", <<"double", e[2]>>, Rw(e[2], t)>>
    [] e[1] = "double" -> <<"double", Rw(e[2], t)>>
    [] e[1] = "sign" -> <<"mul", <<"dirac", e[2]>>, Rw(e[2], t)>>
    [] e[1] = "abs" -> <<"mul", <<"sign", e[2]>>, Rw(e[2], t)>>
    [] e[1] = "ln" -> <<"div", Rw(e[2], t), e[2]>>
    [] e[1] = "xlnx" -> <<"mul", Rw(e[2], t), <<"addone", <<"ln", e[2]>>>>>>
    [] e[1] = "exp" -> <<"mul", e, Rw(e[2], t)>>
    [] e[1] = "rabbit" -> <<"mul", <<"onesub", <<"double", e[2]>>>>, Rw(e[2], t)>>
    [] e[1] = "sigmoid" -> <<"mul", Rw(e[2], t), <<"rabbit", e>>>>
    [] e[1] = "cos" -> <<"neg", <<"mul", Rw(e[2], t), <<"sin", e[2]>>>>>>
    [] e[1] = "sin" -> <<"mul", Rw(e[2], t), <<"cos", e[2]>>>>
    [] e[1] = "gamma" -> <<"mul", <<"mul", Rw(e[2], t), <<"digamma", e[2]>>>>, e>>
    [] e[1] = "lgamma" -> <<"mul", Rw(e[2], t), <<"digamma", e[2]>>>>

(* the differentiable operators *)
RECURSIVE CanRw(_)
CanRw(e) ==
  CASE e[1] = "sconst" -> FALSE
    [] e[1] \in RLeaf -> TRUE
    [] e[1] = "cache" -> CanRw(e[3])
    [] e[1] = "adj" -> CanRw(e[3]) /\ CanRw(Rw(e[3], e[2]))
    [] e[1] \in RBin -> CanRw(e[2]) /\ CanRw(e[3])
    [] e[1] \in {"addone", "subone", "onesub", "square", "double", "neg", "sum", "sign", "abs", "ln", "xlnx", "exp",
                 "rabbit", "sigmoid", "cos", "sin", "gamma", "lgamma"} -> CanRw(e[2])
    [] OTHER -> FALSE

(***************************************************************************)
(* Types.                                                                  *)
(***************************************************************************)
No == [ok |-> FALSE, s |-> <<>>, c |-> "X"]
Ty(c, s) == IF (c = "S" /\ s = <<>>) \/ (c = "A" /\ Len(s) \in 1..5) \/ (c = "T" /\ s = <<2>>)
            THEN [ok |-> TRUE, s |-> s, c |-> c] ELSE No
Prec(a, b) == IF a = "S" THEN b ELSE IF b = "S" THEN a ELSE IF "A" \in {a, b} THEN "A" ELSE "T"
VarTy(id) == LET k == SortOf(id) IN Ty(CASE k = "S" -> "S" [] k = "T" -> "T" [] OTHER -> "A", SortShape[k])

RECURSIVE RTy(_)
RTy(e) ==
  CASE e[1] = "var" -> VarTy(e[2])
    [] e[1] \in {"const", "sconst"} -> LET k == e[2] IN Ty(CASE k = "S" -> "S" [] k = "T" -> "T" [] OTHER -> "A", SortShape[k])
    [] e[1] = "vadj" -> LET a == VarTy(e[2])  b == VarTy(e[3]) IN
                        IF Len(a.s) > 3 THEN No ELSE Ty(Prec(a.c, b.c), a.s \o b.s)
    [] e[1] = "cadj" -> LET a == RTy(e[2])  b == VarTy(e[3]) IN IF ~a.ok THEN No ELSE Ty(Prec(a.c, b.c), a.s \o b.s)
    [] e[1] = "cache" -> LET a == RTy(e[3]) IN IF a.ok /\ VarTy(e[2]) = a THEN a ELSE No
    [] e[1] = "adj" -> RTy(Rw(e[3], e[2]))
    [] e[1] \in RBin ->
         LET a == RTy(e[2])  b == RTy(e[3]) IN
         IF ~a.ok \/ ~b.ok THEN No
         ELSE CASE e[1] = "pow" -> IF a.c = "S" /\ b.c = "S" THEN a ELSE No
                [] e[1] = "tprod" -> IF "T" \in {a.c, b.c} \/ Len(a.s) + Len(b.s) > 2 THEN No
                                     ELSE Ty(Prec(a.c, b.c), a.s \o b.s)
                [] e[1] = "dot" -> IF "T" \in {a.c, b.c} \/ Len(a.s) > 2 \/ Len(b.s) > 2 THEN No
                                   ELSE IF a.s = <<>> /\ b.s = <<>> THEN a
                                   ELSE IF a.s = <<>> \/ b.s = <<>> \/ ~DotCompatible(a.s, b.s) THEN No
                                   ELSE LET s == SubSeq(a.s, 1, Len(a.s) - 1) \o Tail(b.s)
                                        IN Ty(IF s = <<>> THEN "S" ELSE "A", s)
                [] OTHER -> IF a = b THEN a
                            ELSE IF a.c = "S" /\ b.c = "A" THEN b ELSE IF a.c = "A" /\ b.c = "S" THEN a ELSE No
    [] e[1] = "sum" -> IF RTy(e[2]).ok THEN Ty("S", <<>>) ELSE No
    [] OTHER -> RTy(e[2])

(***************************************************************************)
(* What a rewritten tree denotes in an environment of numbers.             *)
(***************************************************************************)
UnitT(s) == LET w == Card(s) IN T(s \o s, [p \in 1..(w * w) |-> IF (p - 1) \div w = (p - 1) % w THEN 1 ELSE 0])
RECURSIVE RDen(_, _)
RDen(e, env) ==
  CASE e[1] = "var" -> env[e[2]]
    [] e[1] = "const" -> T(e[3], e[4])
    [] e[1] = "sconst" -> Dense(e[3], e[4], e[5])
    [] e[1] = "vadj" -> IF e[2] = e[3] THEN UnitT(env[e[2]].s) ELSE Full(env[e[2]].s \o env[e[3]].s, 0)
    [] e[1] = "cadj" -> Full(RTy(e[2]).s \o env[e[3]].s, 0)
    [] e[1] = "cache" -> RDen(e[3], env)
    [] e[1] = "adj" -> RDen(Rw(e[3], e[2]), env)
    [] e[1] = "pow" -> LET a == RDen(e[2], env)  b == RDen(e[3], env) IN T(<<>>, <<Fpow(a.d[1], b.d[1])>>)
    [] e[1] = "tprod" -> TProd(0, RDen(e[2], env), RDen(e[3], env))
    [] e[1] = "dot" -> TDot(0, RDen(e[2], env), RDen(e[3], env))
    [] e[1] \in RBin -> TZip(0, e[1], RDen(e[2], env), RDen(e[3], env))
    [] e[1] = "sum" -> TSum(0, RDen(e[2], env))
    [] OTHER -> TMap(0, e[1], RDen(e[2], env))

(* the design computes the Jacobian of e at env *)
Sound(e, t, env) == TAgree(Adj(t, e, env), RDen(Rw(e, t), env))

(***************************************************************************)
(* Where it does not: a sum is not summed; the axes of a contraction's     *)
(* derivative come in the wrong order when the differentiated left operand *)
(* leaves its target's axes in the middle.                                 *)
(***************************************************************************)
(* each component depends on the same component of t only *)
RECURSIVE Pointwise(_, _)
Pointwise(e, t) ==
  CASE e[1] \in RLeaf -> TRUE
    [] e[1] \in {"cache", "adj"} -> Pointwise(e[3], t)
    [] e[1] = "tprod" -> \/ t \notin Vars(e)
                         \/ RTy(e[2]).s = <<>> /\ t \notin Vars(e[2]) /\ Pointwise(e[3], t)
                         \/ RTy(e[3]).s = <<>> /\ t \notin Vars(e[3]) /\ Pointwise(e[2], t)
    [] e[1] = "dot" -> t \notin Vars(e)
    [] e[1] = "sum" -> t \notin Vars(e)
    [] e[1] \in RBin -> Pointwise(e[2], t) /\ Pointwise(e[3], t)
    [] OTHER -> Pointwise(e[2], t)

RECURSIVE Known(_, _)
Known(e, t) ==
  CASE e[1] \in RLeaf -> FALSE
    [] e[1] \in {"cache", "adj"} -> Known(e[3], t)
    [] e[1] = "sum" -> RTy(e[2]).s # <<>> \/ Known(e[2], t)
    [] e[1] = "tprod" -> \/ t \in Vars(e[2]) /\ RTy(e[3]).s # <<>> /\ VarTy(t).s # <<>>
                         \/ Known(e[2], t) \/ Known(e[3], t)
    [] e[1] = "dot" -> \/ t \in Vars(e[2]) /\ RTy(e[2]).s # <<>> /\ VarTy(t).s # <<>> /\ ~Pointwise(e[2], t)
                       \/ Known(e[2], t) \/ Known(e[3], t)
    [] e[1] \in RBin -> Known(e[2], t) \/ Known(e[3], t)
    [] OTHER -> Known(e[2], t)
=============================================================================

-------------------------------- MODULE Jet --------------------------------
(***************************************************************************)
(* Nested dual numbers.  A jet of level 0 is a scalar; a jet of level n is *)
(* <<v, d>> where v and d are jets of level n-1: the value and its         *)
(* derivative along one direction.  Evaluating an expression at level n    *)
(* therefore yields all its partial derivatives up to order n along n      *)
(* directions, by the chain rule alone: no rewriting of the expression is  *)
(* involved, which is what makes jets an independent oracle for the        *)
(* library's symbolic adjoints.                                            *)
(***************************************************************************)
EXTENDS Field

(* the jet about which nothing is known *)
RECURSIVE JB(_)
JB(n) == IF n = 0 THEN BOT ELSE <<JB(n - 1), JB(n - 1)>>

RECURSIVE JC(_, _), JAdd(_, _, _), JSub(_, _, _), JMul(_, _, _), JDiv(_, _, _)
JC(n, c) == IF n = 0 THEN c ELSE <<JC(n - 1, c), JC(n - 1, 0)>>
JAdd(n, a, b) == IF n = 0 THEN Fadd(a, b)
                 ELSE <<JAdd(n - 1, a[1], b[1]), JAdd(n - 1, a[2], b[2])>>
JSub(n, a, b) == IF n = 0 THEN Fsub(a, b)
                 ELSE <<JSub(n - 1, a[1], b[1]), JSub(n - 1, a[2], b[2])>>
JMul(n, a, b) == IF n = 0 THEN Fmul(a, b)
                 ELSE <<JMul(n - 1, a[1], b[1]),
                        JAdd(n - 1, JMul(n - 1, a[2], b[1]), JMul(n - 1, a[1], b[2]))>>
JDiv(n, a, b) ==
  IF n = 0 THEN Fdiv(a, b)
  ELSE LET q == JDiv(n - 1, a[1], b[1])
       IN <<q, JDiv(n - 1, JSub(n - 1, a[2], JMul(n - 1, q, b[2])), b[1])>>

Plain == {"addone", "subone"}

RECURSIVE J1(_, _, _), JD(_, _, _)
(* a scalar function applied to a jet *)
J1(n, op, a) == IF n = 0 THEN F1(op, a)
                ELSE <<J1(n - 1, op, a[1]), JMul(n - 1, JD(n - 1, op, a[1]), a[2])>>
(* its derivative *)
JD(n, op, x) ==
  CASE op \in Plain   -> JC(n, 1)
    [] op \in {"onesub", "neg"} -> JC(n, P - 1)
    [] op = "square"  -> JAdd(n, x, x)
    [] op = "double"  -> JC(n, 2)
    [] op \in {"sign", "dabs"} -> J1(n, "dirac", x)
    [] op = "abs"     -> J1(n, "dabs", x)
    [] op = "ln"      -> JDiv(n, JC(n, 1), x)
    [] op = "xlnx"    -> J1(n, "dxlnx", x)
    [] op = "dxlnx"   -> JDiv(n, JC(n, 1), x)
    [] op = "exp"     -> J1(n, "exp", x)
    [] op = "rabbit"  -> JSub(n, JC(n, 1), JAdd(n, x, x))
    [] op = "sigmoid" -> J1(n, "rabbit", J1(n, "sigmoid", x))
    [] op = "cos"     -> JSub(n, JC(n, 0), J1(n, "sin", x))
    [] op = "sin"     -> J1(n, "cos", x)
    [] op = "gamma"   -> JMul(n, J1(n, "gamma", x), J1(n, "digamma", x))
    [] op = "lgamma"  -> J1(n, "digamma", x)
    [] OTHER          -> JB(n)

(* b ^ e; `var` says whether the exponent depends on any variable *)
RECURSIVE Base(_, _), JPow(_, _, _, _)
Base(n, a) == IF n = 0 THEN a ELSE Base(n - 1, a[1])
JPow(n, b, e, var) ==
  IF n = 0 THEN Fpow(b, e)
  ELSE LET k == Fsgn(Base(n, e))
           dn == JMul(n - 1, JPow(n - 1, b[1], JSub(n - 1, e[1], JC(n - 1, 1)), var),
                      JMul(n - 1, e[1], b[2]))
           ln == IF ~var THEN JC(n - 1, 0)
                 ELSE IF Fsgn(Base(n, b)) <= 0 THEN JB(n - 1)
                 ELSE JMul(n - 1, JMul(n - 1, JPow(n - 1, b[1], e[1], var), J1(n - 1, "ln", b[1])), e[2])
       IN IF k > 16300 \/ k < -16300 \/ Base(n, b) < 0 \/ Base(n, e) < 0
          THEN <<JPow(n - 1, b[1], e[1], var), JB(n - 1)>>
          ELSE <<JPow(n - 1, b[1], e[1], var), JAdd(n - 1, dn, ln)>>

J2(n, op, a, b) ==
  CASE op = "add" -> JAdd(n, a, b)
    [] op = "sub" -> JSub(n, a, b)
    [] op = "mul" -> JMul(n, a, b)
    [] op = "div" -> JDiv(n, a, b)
    [] op = "pow" -> JPow(n, a, b, TRUE)

(* a scalar (level n) as a jet of level n+1 with derivative c *)
JLift(n, a, c) == <<a, JC(n, c)>>
=============================================================================

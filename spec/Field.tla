------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The scalars of the specification: the field with P elements, extended   *)
(* by an absorbing element BOT ("no value"), ordered by the representative *)
(* in -(P-1)/2 .. (P-1)/2.  All arithmetic is exact, so every comparison   *)
(* with the implementation is an equality.                                 *)
(*                                                                         *)
(* The transcendental functions are opaque to every identity the library   *)
(* may rely on except the ones listed here; each has a computable stand-in *)
(* that satisfies those identities (exp(0)=1, exp(-x)=1/exp(x), ln(1)=0,   *)
(* sin(0)=0, cos(0)=1, sin^2+cos^2=1, tan=sin/cos, sinh/cosh/tanh from     *)
(* exp, acos = pi/2-asin, asin(1)=pi/2, atan(1)=pi/4, gamma(1)=1, ...).    *)
(* The implementation side of the same stand-ins is harness/src/zfield.rs. *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 32749
BOT == -1
UNKNOWN == -2
HALF == 16374

Fbot(a) == a < 0
Fadd(a, b) == IF a < 0 \/ b < 0 THEN BOT ELSE (a + b) % P
Fsub(a, b) == IF a < 0 \/ b < 0 THEN BOT ELSE (a + P - b) % P
Fmul(a, b) == IF a < 0 \/ b < 0 THEN BOT ELSE (a * b) % P
Fneg(a) == Fsub(0, a)
Fint(i) == i % P                    \* % is never negative in TLA+
Fsgn(a) == IF a > HALF THEN a - P ELSE a   \* signed representative

RECURSIVE FpowU(_, _)
FpowU(b, e) == IF e = 0 THEN 1
               ELSE LET h == FpowU((b * b) % P, e \div 2)
                    IN IF e % 2 = 1 THEN (h * b) % P ELSE h
Finv(a) == IF a <= 0 THEN BOT ELSE FpowU(a, P - 2)
Fdiv(a, b) == Fmul(a, Finv(b))

(* b ^ e, the exponent read as a signed integer; 0 ^ 0 = 1, 0 ^ -1 = BOT *)
Fpow(b, e) == IF b < 0 \/ e < 0 THEN BOT
              ELSE LET k == Fsgn(e)
                   IN IF k >= 0 THEN FpowU(b, k)
                      ELSE IF b = 0 THEN BOT ELSE FpowU(Finv(b), -k)

CA == 5003
CC == 7
PI == 11119
Half(x) == Fmul(x, 16375)           \* 16375 = 1/2

Fexp(x) == Fdiv(Fadd(CA, x), Fsub(CA, x))
Fln(x) == IF x = 0 THEN BOT ELSE Fdiv(Fmul(CA, Fsub(x, 1)), Fadd(x, 1))
Fsin(x) == LET t == Fmul(CC, x) IN Fdiv(Fadd(t, t), Fadd(1, Fmul(t, t)))
Fcos(x) == LET t == Fmul(CC, x) IN Fdiv(Fsub(1, Fmul(t, t)), Fadd(1, Fmul(t, t)))
Fsinh(x) == Half(Fsub(Fexp(x), Fexp(Fneg(x))))
Fcosh(x) == Half(Fadd(Fexp(x), Fexp(Fneg(x))))
Fasin(x) == Fmul(Fmul(Half(PI), x), Fadd(17, Fmul(Fsub(1, 17), Fmul(x, x))))
Fgamma(x) == Fdiv(Fadd(1, Fmul(43, Fsub(x, 1))), x)
Fcube(x) == Fmul(x, Fmul(x, x))

(* The scalar functions the operators are named after. *)
F1(op, x) ==
  IF x < 0 THEN BOT ELSE
  CASE op = "addone"  -> Fadd(x, 1)
    [] op = "subone"  -> Fsub(x, 1)
    [] op = "onesub"  -> Fsub(1, x)
    [] op = "square"  -> Fmul(x, x)
    [] op = "double"  -> Fadd(x, x)
    [] op = "neg"     -> Fneg(x)
    [] op = "dirac"   -> IF x = 0 THEN BOT ELSE 0
    [] op = "sign"    -> IF x = 0 THEN 0 ELSE IF Fsgn(x) < 0 THEN P - 1 ELSE 1
    [] op = "dabs"    -> IF x = 0 THEN BOT ELSE IF Fsgn(x) < 0 THEN P - 1 ELSE 1
    [] op = "abs"     -> IF Fsgn(x) < 0 THEN Fneg(x) ELSE x
    [] op = "ln"      -> Fln(x)
    [] op = "lnr"     -> IF Fsgn(x) <= 0 THEN BOT ELSE Fln(x)
    [] op = "xlnx"    -> IF Fsgn(x) <= 0 THEN 0 ELSE Fmul(x, Fln(x))
    [] op = "dxlnx"   -> IF Fsgn(x) <= 0 THEN BOT ELSE Fadd(1, Fln(x))
    [] op = "exp"     -> Fexp(x)
    [] op = "rabbit"  -> Fmul(x, Fsub(1, x))
    [] op = "sigmoid" -> Finv(Fadd(1, Fexp(Fneg(x))))
    [] op = "sin"     -> Fsin(x)
    [] op = "cos"     -> Fcos(x)
    [] op = "tan"     -> Fdiv(Fsin(x), Fcos(x))
    [] op = "sinh"    -> Fsinh(x)
    [] op = "cosh"    -> Fcosh(x)
    [] op = "tanh"    -> Fdiv(Fsinh(x), Fcosh(x))
    [] op = "asin"    -> Fasin(x)
    [] op = "acos"    -> Fsub(Half(PI), Fasin(x))
    [] op = "atan"    -> Fmul(Fmul(Half(Half(PI)), x), Fadd(23, Fmul(Fsub(1, 23), Fmul(x, x))))
    [] op = "asinh"   -> Fmul(x, Fadd(29, Fmul(31, Fmul(x, x))))
    [] op = "acosh"   -> Fdiv(Fmul(37, Fsub(x, 1)), x)
    [] op = "atanh"   -> Fdiv(Fmul(41, x), Fsub(1, Fmul(x, x)))
    [] op = "gamma"   -> Fgamma(x)
    [] op = "lgamma"  -> Fln(Fgamma(x))
    [] op = "digamma" -> Fadd(47, Fadd(Fdiv(53, x), Fmul(59, x)))
    [] op = "erf"     -> Fadd(Fmul(61, x), Fmul(67, Fcube(x)))
    [] op = "inv"     -> Finv(x)

F2(op, x, y) ==
  CASE op = "add" -> Fadd(x, y)
    [] op = "sub" -> Fsub(x, y)
    [] op = "mul" -> Fmul(x, y)
    [] op = "div" -> Fdiv(x, y)
    [] op = "pow" -> Fpow(x, y)

(* An observed scalar o is explained by a specified scalar m. *)
Agree(m, o) == m = BOT \/ o = UNKNOWN \/ m = o
=============================================================================

------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* The operators on floating-point numbers.                                *)
(*                                                                         *)
(* A number of format f ("f64", "f32") is <<s, e, a, b>>: sign, biased     *)
(* exponent, upper and lower part of the mantissa, as laid out by IEEE 754.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

A(f) == IF f = "f64" THEN 67108864 ELSE 8388608        \* values of the upper part
B(f) == IF f = "f64" THEN 67108864 ELSE 1              \* of the lower part
EMax(f) == IF f = "f64" THEN 2047 ELSE 255
Bias(f) == IF f = "f64" THEN 1023 ELSE 127

Nan(f, v) == v[2] = EMax(f) /\ (v[3] # 0 \/ v[4] # 0)
Infinite(f, v) == v[2] = EMax(f) /\ v[3] = 0 /\ v[4] = 0
Finite(f, v) == v[2] < EMax(f)
IsZero(v) == v[2] = 0 /\ v[3] = 0 /\ v[4] = 0
Pow2(f, s, k) == <<s, Bias(f) + k, 0, 0>>
OneAndHalf(f, k) == <<0, Bias(f) + k, A(f) \div 2, 0>>
Neg(v) == <<1 - v[1], v[2], v[3], v[4]>>

(* the inputs where something special happens, and some ordinary ones *)
Classes == <<"ninf", "nmax", "n1", "nhalf", "ntiny", "nzero", "zero", "tiny", "half", "one", "two", "max", "inf", "nan">>
Value(f, c) ==
  CASE c = "zero" -> <<0, 0, 0, 0>>   [] c = "nzero" -> <<1, 0, 0, 0>>
    [] c = "inf" -> <<0, EMax(f), 0, 0>>   [] c = "ninf" -> <<1, EMax(f), 0, 0>>
    [] c = "nan" -> <<0, EMax(f), A(f) \div 2, 0>>
    [] c = "max" -> <<0, EMax(f) - 1, A(f) - 1, B(f) - 1>>   [] c = "nmax" -> <<1, EMax(f) - 1, A(f) - 1, B(f) - 1>>
    [] c = "tiny" -> IF f = "f64" THEN <<0, 0, 0, 1>> ELSE <<0, 0, 1, 0>>
    [] c = "ntiny" -> IF f = "f64" THEN <<1, 0, 0, 1>> ELSE <<1, 0, 1, 0>>
    [] c = "n1" -> Pow2(f, 1, 0)   [] c = "one" -> Pow2(f, 0, 0)
    [] c = "nhalf" -> Pow2(f, 1, -1)   [] c = "half" -> Pow2(f, 0, -1)
    [] c = "two" -> Pow2(f, 0, 1)

(* o is what w calls for *)
Fits(f, w, x, o) ==
  CASE w = "any" -> TRUE
    [] w = "fin" -> Finite(f, o)
    [] w = "pos" -> Finite(f, o) /\ o[1] = 0 /\ ~IsZero(o)
    [] w = "neg" -> Finite(f, o) /\ o[1] = 1 /\ ~IsZero(o)
    [] w = "nan" -> Nan(f, o)
    [] w = "inf" -> Infinite(f, o) /\ o[1] = 0
    [] w = "-inf" -> Infinite(f, o) /\ o[1] = 1
    [] w = "x" -> IF Nan(f, x) THEN Nan(f, o) ELSE o = x
    [] w = "-x" -> IF Nan(f, x) THEN Nan(f, o) ELSE o = Neg(x)
    [] w = "|x|" -> IF Nan(f, x) THEN Nan(f, o) ELSE o = <<0, x[2], x[3], x[4]>>
    [] w = "0" -> IsZero(o)
    [] w = "0|nan" -> IsZero(o) \/ Nan(f, o)
    [] w = "1" -> o = Pow2(f, 0, 0)    [] w = "-1" -> o = Pow2(f, 1, 0)
    [] w = "2" -> o = Pow2(f, 0, 1)    [] w = "-2" -> o = Pow2(f, 1, 1)
    [] w = "4" -> o = Pow2(f, 0, 2)
    [] w = "1/2" -> o = Pow2(f, 0, -1) [] w = "1/4" -> o = Pow2(f, 0, -2)
    [] w = "-1/2" -> o = Pow2(f, 1, -1)
    [] w = "3" -> o = OneAndHalf(f, 1) [] w = "3/2" -> o = OneAndHalf(f, 0)
    [] w = "-3" -> o = Neg(OneAndHalf(f, 1)) [] w = "-3/2" -> o = Neg(OneAndHalf(f, 0))

(* values at the special inputs, in the order of Classes *)
Limit ==
  [addone |-> <<"-inf", "x", "0", "1/2", "1", "1", "1", "1", "3/2", "2", "3", "x", "inf", "nan">>,
   subone |-> <<"-inf", "x", "-2", "-3/2", "-1", "-1", "-1", "-1", "-1/2", "0", "1", "x", "inf", "nan">>,
   onesub |-> <<"inf", "-x", "2", "3/2", "1", "1", "1", "1", "1/2", "0", "-1", "-x", "-inf", "nan">>,
   square |-> <<"inf", "inf", "1", "1/4", "0", "0", "0", "0", "1/4", "1", "4", "inf", "inf", "nan">>,
   double |-> <<"-inf", "-inf", "-2", "-1", "neg", "0", "0", "pos", "1", "2", "4", "inf", "inf", "nan">>,
   neg    |-> <<"inf", "-x", "1", "1/2", "-x", "0", "0", "-x", "-1/2", "-1", "-2", "-x", "-inf", "nan">>,
   dirac  |-> <<"0", "0", "0", "0", "0", "inf", "inf", "0", "0", "0", "0", "0", "0", "0|nan">>,
   sign   |-> <<"-1", "-1", "-1", "-1", "-1", "0", "0", "1", "1", "1", "1", "1", "1", "nan">>,
   abs    |-> <<"inf", "|x|", "1", "1/2", "|x|", "0", "0", "x", "x", "x", "x", "x", "inf", "nan">>,
   ln     |-> <<"nan", "nan", "nan", "nan", "nan", "-inf", "-inf", "neg", "neg", "0", "pos", "pos", "inf", "nan">>,
   xlnx   |-> <<"0", "0", "0", "0", "0", "0", "0", "fin", "neg", "0", "pos", "inf", "inf", "nan">>,
   exp    |-> <<"0", "0", "pos", "pos", "1", "1", "1", "1", "pos", "pos", "pos", "inf", "inf", "nan">>,
   rabbit |-> <<"-inf", "-inf", "-2", "neg", "x", "0", "0", "x", "1/4", "0", "-2", "-inf", "-inf", "nan">>,
   sigmoid |-> <<"0", "0", "pos", "pos", "1/2", "1/2", "1/2", "1/2", "pos", "pos", "pos", "1", "1", "nan">>,
   cos    |-> <<"nan", "any", "pos", "pos", "1", "1", "1", "1", "pos", "pos", "neg", "any", "nan", "nan">>,
   sin    |-> <<"nan", "any", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "pos", "any", "nan", "nan">>,
   cosh   |-> <<"inf", "inf", "pos", "pos", "1", "1", "1", "1", "pos", "pos", "pos", "inf", "inf", "nan">>,
   sinh   |-> <<"-inf", "-inf", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "pos", "inf", "inf", "nan">>,
   tanh   |-> <<"-1", "-1", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "pos", "1", "1", "nan">>,
   tan    |-> <<"nan", "any", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "neg", "any", "nan", "nan">>,
   acos   |-> <<"nan", "nan", "pos", "pos", "pos", "pos", "pos", "pos", "pos", "0", "nan", "nan", "nan", "nan">>,
   asin   |-> <<"nan", "nan", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "nan", "nan", "nan", "nan">>,
   atan   |-> <<"neg", "neg", "neg", "neg", "x", "0", "0", "x", "pos", "pos", "pos", "pos", "pos", "nan">>,
   acosh  |-> <<"nan", "nan", "nan", "nan", "nan", "nan", "nan", "nan", "nan", "0", "pos", "any", "inf", "nan">>,
   asinh  |-> <<"-inf", "any", "neg", "neg", "any", "0", "0", "any", "pos", "pos", "pos", "any", "inf", "nan">>,
   atanh  |-> <<"nan", "nan", "-inf", "neg", "any", "0", "0", "any", "pos", "inf", "nan", "nan", "nan", "nan">>,
   gamma  |-> <<"any", "any", "any", "any", "any", "any", "any", "inf", "pos", "1", "1", "any", "inf", "nan">>,
   lgamma |-> <<"any", "any", "any", "any", "any", "any", "any", "any", "pos", "0", "0", "any", "inf", "nan">>,
   digamma |-> <<"any", "any", "any", "any", "any", "any", "any", "any", "neg", "neg", "pos", "any", "any", "nan">>,
   erf    |-> <<"-1", "-1", "neg", "neg", "any", "0", "0", "any", "pos", "pos", "pos", "1", "1", "nan">>]

(* and the slopes there *)
LimitAdj ==
  [addone |-> <<"1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1">>,
   subone |-> <<"1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1">>,
   onesub |-> <<"-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1">>,
   neg    |-> <<"-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1", "-1">>,
   double |-> <<"2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2">>,
   square |-> <<"-inf", "-inf", "-2", "-1", "neg", "0", "0", "pos", "1", "2", "4", "inf", "inf", "nan">>,
   sign   |-> <<"0", "0", "0", "0", "0", "inf", "inf", "0", "0", "0", "0", "0", "0", "any">>,
   abs    |-> <<"-1", "-1", "-1", "-1", "-1", "0", "0", "1", "1", "1", "1", "1", "1", "nan">>,
   ln     |-> <<"any", "any", "any", "any", "any", "any", "inf", "inf", "2", "1", "1/2", "fin", "0", "nan">>,
   (* x ln x is 0 to the left of 0, and so is its slope; the library says NaN (a known finding) *)
   xlnx   |-> <<"0|nan", "0|nan", "0|nan", "0|nan", "0|nan", "any", "-inf", "neg", "pos", "1", "pos", "pos", "inf", "nan">>,
   exp    |-> <<"0", "0", "pos", "pos", "1", "1", "1", "1", "pos", "pos", "pos", "inf", "inf", "nan">>,
   rabbit |-> <<"inf", "inf", "3", "2", "1", "1", "1", "1", "0", "-1", "-3", "-inf", "-inf", "nan">>,
   sigmoid |-> <<"0", "0", "pos", "pos", "1/4", "1/4", "1/4", "1/4", "pos", "pos", "pos", "0", "0", "nan">>,
   cos    |-> <<"nan", "any", "pos", "pos", "pos", "0", "0", "neg", "neg", "neg", "neg", "any", "nan", "nan">>,
   sin    |-> <<"nan", "any", "pos", "pos", "1", "1", "1", "1", "pos", "pos", "neg", "any", "nan", "nan">>,
   gamma  |-> <<"any", "any", "any", "any", "any", "any", "any", "any", "neg", "neg", "pos", "any", "any", "nan">>,
   lgamma |-> <<"any", "any", "any", "any", "any", "any", "any", "any", "neg", "neg", "pos", "any", "any", "nan">>]

Pos(c) == CHOOSE i \in 1..Len(Classes) : Classes[i] = c

(* infinities and NaNs of the binary operators *)
Sign2(x, y) == (x[1] + y[1]) % 2
BinWant(f, op, x, y) ==
  LET nx == Nan(f, x) ny == Nan(f, y) ix == Infinite(f, x) iy == Infinite(f, y)
      Signed(s) == IF s = 0 THEN "inf" ELSE "-inf"
      yy == IF op = "sub" THEN Neg(y) ELSE y
  IN IF op = "pow"
     THEN IF IsZero(y) THEN "1"
          ELSE IF x = Pow2(f, 0, 0) /\ Finite(f, y) THEN "1"
          ELSE IF nx \/ ny THEN "any"
          ELSE IF IsZero(x) /\ x[1] = 0 THEN (IF y[1] = 0 THEN "0" ELSE "inf")
          ELSE IF ix /\ x[1] = 0 THEN (IF y[1] = 0 THEN "inf" ELSE "0")
          ELSE "any"
     ELSE IF nx \/ ny THEN "nan"
     ELSE CASE op \in {"add", "sub"} -> IF ix /\ iy /\ x[1] # yy[1] THEN "nan"
                                         ELSE IF ix THEN Signed(x[1]) ELSE IF iy THEN Signed(yy[1]) ELSE "any"
            [] op = "mul" -> IF (ix /\ IsZero(y)) \/ (iy /\ IsZero(x)) THEN "nan"
                             ELSE IF ix \/ iy THEN Signed(Sign2(x, y)) ELSE IF IsZero(x) \/ IsZero(y) THEN "0" ELSE "any"
            [] op = "div" -> IF (ix /\ iy) \/ (IsZero(x) /\ IsZero(y)) THEN "nan"
                             ELSE IF ix \/ IsZero(y) THEN Signed(Sign2(x, y)) ELSE IF iy \/ IsZero(x) THEN "0" ELSE "any"

(***************************************************************************)
(* special-fun links single-precision functions of its own in place of the *)
(* platform's, which saturate or stop short at the edges: there f32 is     *)
(* only asked for one answer in all forms, unless the request is strict    *)
(* (the known findings are).                                               *)
(***************************************************************************)
Edge == {"ninf", "nmax", "max", "inf", "nan"}
Borrowed ==
  [acos |-> Edge \cup {"two"}, asin |-> Edge \cup {"two"},
   acosh |-> Edge \cup {"n1", "nhalf", "ntiny", "nzero", "zero", "tiny", "half"},
   asinh |-> Edge, atanh |-> Edge \cup {"n1", "one", "two"}, atan |-> Edge, cos |-> Edge, sin |-> Edge, tan |-> Edge,
   cosh |-> Edge, sinh |-> Edge, tanh |-> Edge, exp |-> Edge, sigmoid |-> {"nan"}, square |-> Edge,
   ln |-> Edge \cup {"n1", "nhalf", "ntiny", "nzero", "zero"}, lgamma |-> Edge, gamma |-> Edge, digamma |-> Edge, erf |-> Edge]
BorrowedAdj ==
  [cos |-> Edge, sin |-> Edge, exp |-> Edge, sigmoid |-> {"nan"}, lgamma |-> Edge, gamma |-> Edge,
   xlnx |-> Edge \cup {"n1", "nhalf", "ntiny", "nzero", "zero"}]
Loose(r) ==
  r.f = "f32" /\ "strict" \notin DOMAIN r
  /\ IF "cy" \in DOMAIN r THEN r.op = "pow" /\ (r.cx \in Edge \cup {"zero"} \/ r.cy \in Edge)
     ELSE r.op \in DOMAIN Borrowed /\ r.cx \in Borrowed[r.op]
LooseAdj(r) ==
  r.f = "f32" /\ "strict" \notin DOMAIN r /\ r.op \in DOMAIN BorrowedAdj /\ r.cx \in BorrowedAdj[r.op]

(***************************************************************************)
(* Closeness, in units of the last place of the upper mantissa.            *)
(***************************************************************************)
Small(f, v) == v[2] < 30
Near(f, x, y, k) ==
  \/ x = y
  \/ Nan(f, x) /\ Nan(f, y)
  \/ Small(f, x) /\ Small(f, y)
  \/ /\ Finite(f, x) /\ Finite(f, y) /\ x[1] = y[1] /\ x[2] - y[2] \in -1..1
     /\ LET d == (x[2] - y[2]) * A(f) + x[3] - y[3] IN d \in -k..k
(* in units of the last place *)
Ulps(f, x, y, k) ==
  \/ x = y
  \/ /\ Finite(f, x) /\ Finite(f, y) /\ x[1] = y[1] /\ x[2] - y[2] \in -1..1
     /\ LET d == (x[2] - y[2]) * A(f) + x[3] - y[3] IN
        d \in -1..1 /\ d * B(f) + x[4] - y[4] \in -k..k
Less(x, y) ==    \* finite
  LET Mag(u, v) == u[2] < v[2] \/ (u[2] = v[2] /\ (u[3] < v[3] \/ (u[3] = v[3] /\ u[4] < v[4]))) IN
  IF IsZero(x) /\ IsZero(y) THEN FALSE
  ELSE IF x[1] # y[1] THEN x[1] = 1 /\ ~(IsZero(x) /\ IsZero(y))
  ELSE IF x[1] = 0 THEN Mag(x, y) ELSE Mag(y, x)

Same(f, x, y) == x = y \/ (Nan(f, x) /\ Nan(f, y)) \/ (IsZero(x) /\ IsZero(y))
Num(v) == Len(v) = 4

(***************************************************************************)
(* What a recorded answer gets wrong.                                      *)
(***************************************************************************)
Has(r, k) == k \in DOMAIN r
SpecialTags(r) ==
  LET f == r.f
      unary == ~Has(r, "cy")
      w == IF unary THEN Limit[r.op][Pos(r.cx)] ELSE BinWant(f, r.op, r.x, r.y)
  IN (IF Loose(r) \/ Fits(f, w, r.x, r.out) THEN {} ELSE {"value"})
     \cup (IF unary /\ Has(r, "adj")
           THEN LET v == LimitAdj[r.op][Pos(r.cx)]
                    v2 == IF v = "0|nan" /\ Has(r, "strict") THEN "0" ELSE v
                IN IF LooseAdj(r) \/ Fits(f, v2, r.x, r.adj[1]) THEN {} ELSE {"slope"}
           ELSE {})
(* Functions the standard library has: the answer is off by what another way  *)
(* of computing the same formula may round differently, and no more.          *)
Stable == {"addone", "subone", "onesub", "square", "double", "neg", "sign", "abs", "dirac", "ln", "xlnx", "exp", "rabbit",
           "sigmoid", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "add", "sub", "mul", "div"}
Close(f, op, x, y) ==
  \/ Nan(f, x) /\ Nan(f, y)
  \/ IsZero(x) /\ IsZero(y)
  \/ Ulps(f, x, y, IF op \in Stable THEN 64 ELSE 4096)
OrdinaryTags(r) ==
  LET f == r.f
      special == r.op \in {"gamma", "lgamma", "digamma", "erf"}
      kv == IF f = "f64" THEN 2 ELSE IF special THEN 256 ELSE 32
      ks == IF f = "f64" THEN 256 ELSE 1024
  IN (IF Near(f, r.out, r.ref, kv) /\ (f = "f32" \/ special \/ Close(f, r.op, r.out, r.ref)) THEN {} ELSE {"value"})
     \cup (IF ~Has(r, "adj") THEN {}
           \* s (1 - s) keeps no digits of a slope far to the right
           ELSE IF r.op = "sigmoid" /\ Has(r, "wide") /\ r.x[1] = 0 /\ r.x[2] >= Bias(f) + 2
           THEN (IF r.adj[1][1] = 0 /\ r.adj[1][2] < Bias(f) - 5 THEN {} ELSE {"slope"})
           ELSE IF \E i \in 1..Len(r.adj) : ~Num(r.adj[i]) \/ ~Near(f, r.adj[i], r.slope[i], ks) THEN {"slope"} ELSE {})
(* sigmoid at x and y, and one minus that at -x *)
SigTags(r) ==
  LET f == r.f  a == r.out[1]  b == r.out[2]  m == r.out[3]
      In01(v) == (v[1] = 0 /\ (v = Pow2(f, 0, 0) \/ v[2] < Bias(f))) \/ IsZero(v)
  IN (IF In01(a) /\ In01(b) THEN {} ELSE {"range"})
     \cup (IF Less(r.x, r.y) => (~Less(b, a) \/ Ulps(f, a, b, 4)) THEN {} ELSE {"monotone"})
     \* rounding 1 - s loses what is below the last place of one
     \cup (IF Ulps(f, a, m, 4) \/ (a[2] < Bias(f) - 1 /\ m[2] < Bias(f) - 1) THEN {} ELSE {"symmetry"})
FormTags(r) ==
  (IF \A i \in 1..Len(r.forms) : Same(r.f, r.out, r.forms[i]) THEN {} ELSE {"forms"})
  \cup (IF Has(r, "dual") /\ ~Same(r.f, r.dual, r.adj[1]) THEN {"dual"} ELSE {})
Tags(r) ==
  IF r.op = "sigpair" THEN (IF \A i \in 1..3 : Num(r.out[i]) THEN SigTags(r) ELSE {"value"})
  ELSE IF ~Num(r.out) \/ (Has(r, "adj") /\ \E i \in 1..Len(r.adj) : ~Num(r.adj[i])) THEN {"value"}
  ELSE (IF Has(r, "cx") THEN SpecialTags(r) ELSE OrdinaryTags(r)) \cup FormTags(r)

(***************************************************************************)
(* The requests.                                                           *)
(***************************************************************************)
Fmt == {"f64", "f32"}
Cl == {Classes[i] : i \in 1..Len(Classes)}
(* those where the special functions the library borrows take their time or say nothing useful *)
Skip(op, c) == \/ op \in {"gamma", "lgamma", "digamma"} /\ Limit[op][Pos(c)] = "any"
               \/ op = "gamma" /\ c = "inf"        \* the function borrowed for f32 does not return
               \/ op \in {"sin", "cos", "tan"} /\ c \in {"max", "nmax"}
Specials == {[f |-> f, op |-> op, cx |-> c, x |-> Value(f, c)] : f \in Fmt, op \in DOMAIN Limit, c \in Cl}
Pairs == {[f |-> f, op |-> op, cx |-> c, cy |-> d, x |-> Value(f, c), y |-> Value(f, d)] :
            f \in Fmt, op \in {"add", "sub", "mul", "div", "pow"}, c \in Cl, d \in Cl}
SigPts(f) == {Value(f, c) : c \in Cl \ {"nan"}}
             \cup {<<s, Bias(f) + k, a, 0>> : s \in {0, 1}, k \in {-8, -2, -1, 0, 1, 2, 4, 5, 6, 9, 10}, a \in {0, 1, A(f) - 1}}
Sigs == UNION {{[f |-> f, op |-> "sigpair", x |-> x, y |-> y] : x \in SigPts(f), y \in SigPts(f)} : f \in Fmt}
Requests(area) == {r \in Specials : ~Skip(r.op, r.cx)} \cup Pairs
                  \cup {r \in Sigs : Less(r.x, r.y)}
=============================================================================

--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* All small programs of the expression language: every operator over      *)
(* every sort it is defined on, and every composition of two operators.    *)
(* TLC enumerates them; each is then run through the implementation.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Poly == {"addone", "subone", "onesub", "square", "double", "neg"}
Mid == Poly \cup {"ln", "xlnx", "exp", "rabbit", "sigmoid", "cos", "sin", "abs", "sign", "dirac", "gamma",
                  "lgamma", "digamma", "erf"}
All == Mid \cup {"cosh", "acos", "acosh", "sinh", "asin", "asinh", "tan", "tanh", "atan", "atanh"}
Un(s) == CASE s \in {"S", "A", "M"} -> All
           [] s = "T" -> Mid
           [] s = "K" -> Poly \cup {"exp", "abs", "sign", "dirac"}
           [] s = "L" -> Poly \cup {"abs", "sign", "exp", "sin", "sigmoid", "ln", "rabbit"}
           [] OTHER -> Poly

Ew == {"add", "sub", "mul", "div"}
Sorts == {"S", "A", "B", "M", "N", "Q", "R", "L", "T", "K", "W"}
Mix == Sorts \ {"S", "T"}
BinSig ==
     {<<op, s, s, s>> : op \in Ew, s \in Sorts}
  \cup {<<op, s, "S", s>> : op \in Ew, s \in Mix} \cup {<<op, "S", s, s>> : op \in Ew, s \in Mix}
  \cup {<<"pow", "S", "S", "S">>}
  \cup {<<"tprod", x[1], x[2], x[3]>> : x \in
          {<<"S", "S", "S">>, <<"A", "B", "M">>, <<"B", "A", "N">>, <<"A", "A", "Q">>, <<"B", "B", "R">>}
          \cup {<<"S", s, s>> : s \in Mix \ {"L", "K"}} \cup {<<s, "S", s>> : s \in Mix \ {"L", "K"}}}
  \cup {<<"dot", x[1], x[2], x[3]>> : x \in
          {<<"S", "S", "S">>, <<"A", "A", "S">>, <<"B", "B", "S">>, <<"Q", "A", "A">>, <<"R", "B", "B">>,
           <<"M", "N", "Q">>, <<"N", "M", "R">>, <<"M", "R", "M">>, <<"Q", "M", "M">>, <<"N", "Q", "N">>,
           <<"R", "N", "N">>, <<"Q", "Q", "Q">>, <<"R", "R", "R">>, <<"A", "M", "B">>, <<"B", "N", "A">>,
           <<"A", "Q", "A">>, <<"B", "R", "B">>}}

Var(s, k) == <<"var", s \o ToString(k)>>
Num(c) == <<"const", "S", <<>>, <<c>>>>
Leaf(s) == {Var(s, 0), Var(s, 1)} \cup (IF s = "S" THEN {Num(0), Num(1), Num(2), Num(32748)} ELSE {})
Sib(s) == {Var(s, 1)} \cup (IF s = "S" THEN {Var(s, 0), Num(0), Num(1), Num(2)} ELSE {})

(* one operator *)
One(s) == {<<u, x>> : u \in Un(s), x \in Leaf(s)}
          \cup UNION {{<<b[1], x, y>> : x \in Leaf(b[2]), y \in Leaf(b[3])} : b \in {c \in BinSig : c[4] = s}}
          \cup (IF s = "S" THEN {<<"sum", Var(t, 0)>> : t \in Sorts} ELSE {})

(* operands of a second one *)
InUn(s) == IF s = "S" THEN Un(s) ELSE Un(s) \cap {"addone", "onesub", "square", "neg", "exp"}
OutUn(s) == IF s = "S" THEN Un(s) ELSE Un(s) \cap {"subone", "onesub", "double", "neg", "sigmoid", "abs", "ln"}
Inner(s) == {<<u, Var(s, 0)>> : u \in InUn(s)}
            \cup UNION {{<<b[1], Var(b[2], 0), Var(b[3], 1)>>} \cup
                        (IF b[3] = "S" THEN {<<b[1], Var(b[2], 0), Num(2)>>} ELSE {}) \cup
                        (IF b[2] = "S" THEN {<<b[1], Num(2), Var(b[3], 1)>>} ELSE {})
                        : b \in {c \in BinSig : c[4] = s}}
            \cup (IF s = "S" THEN {<<"sum", Var(t, 0)>> : t \in {"S", "M", "T", "L", "K", "W"}} ELSE {})

Small(s) == {<<u, Var(s, 0)>> : u \in Un(s) \cap {"addone", "square", "exp"}}
            \cup (IF s = "S" THEN {<<b[1], Var(b[2], 0), Var(b[3], 1)>> : b \in {c \in BinSig : c[4] = s /\ c[1] \in {"add", "sub", "mul", "dot"}}}
                  ELSE {<<"sub", Var(s, 0), Var(s, 1)>>})

Arg(s, t) == IF s = "S" /\ t = "S" THEN Inner(t) ELSE Small(t) \cup (IF t = "S" THEN {} ELSE {<<"sub", Var(t, 0), Var(t, 1)>>})
Two(s) == {<<u, x>> : u \in OutUn(s), x \in Inner(s)}
          \cup UNION {{<<b[1], x, y>> : x \in Arg(s, b[2]), y \in Sib(b[3])} \cup
                      {<<b[1], x, y>> : x \in Sib(b[2]), y \in Arg(s, b[3])} \cup
                      {<<b[1], x, y>> : x \in Small(b[2]), y \in Small(b[3])}
                      : b \in {c \in BinSig : c[4] = s}}
          \cup (IF s = "S" THEN UNION {{<<"sum", x>> : x \in Small(t)} : t \in Sorts} ELSE {})

Progs == UNION {{[s |-> s, n |-> 1, e |-> x] : x \in One(s)} \cup {[s |-> s, n |-> 2, e |-> x] : x \in Two(s)} : s \in Sorts}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Progs))
ASSUME PrintT(<<"PROGRAMS", Cardinality(Progs)>>)

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

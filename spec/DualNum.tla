------------------------------ MODULE DualNum ------------------------------
(***************************************************************************)
(* Dual numbers as polynomials a + b*e with e*e = 0.  Two registers hold   *)
(* dual numbers; an operation replaces one register by the result of       *)
(* applying it to that register and to the other, itself, or a number.     *)
(*                                                                         *)
(* Next to the dual number the model carries, as long as no conjugate was  *)
(* taken, the polynomial in the variable that the history has computed; a  *)
(* dual number must be its value and (formal) derivative (DualMC.tla).     *)
(***************************************************************************)
EXTENDS Tensor

(* polynomials: sequences of coefficients, lowest first *)
MaxI(a, b) == IF a > b THEN a ELSE b
Coef(p, i) == IF i <= Len(p) THEN p[i] ELSE 0
PAdd(p, q) == [i \in 1..MaxI(Len(p), Len(q)) |-> Fadd(Coef(p, i), Coef(q, i))]
PNeg(p) == [i \in 1..Len(p) |-> Fneg(p[i])]
RECURSIVE SumTo(_, _, _)
SumTo(f(_), lo, hi) == IF lo > hi THEN 0 ELSE Fadd(f(lo), SumTo(f, lo + 1, hi))
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                 SumTo(LAMBDA i : Fmul(Coef(p, i), Coef(q, k + 1 - i)), MaxI(1, k + 1 - Len(q)), IF k < Len(p) THEN k ELSE Len(p))]
RECURSIVE Horner(_, _)
Horner(p, x) == IF p = <<>> THEN 0 ELSE Fadd(p[1], Fmul(x, Horner(Tail(p), x)))
Deriv(p) == IF Len(p) <= 1 THEN <<0>> ELSE [i \in 1..(Len(p) - 1) |-> Fmul(Fint(i), p[i + 1])]

(* dual numbers: polynomials in e, truncated *)
Trunc(p) == <<Coef(p, 1), Coef(p, 2)>>
Conj(d) == <<d[1], Fneg(d[2])>>
Bin(name, p, q) == CASE name = "add" -> PAdd(p, q)
                     [] name = "sub" -> PAdd(p, PNeg(q))
                     [] name = "mul" -> PMul(p, q)
Operand(reg, o) == IF o[2] \in {"d", "rd"} THEN reg[o[4]] ELSE <<o[5]>>
Apply(reg, o) ==
  [reg EXCEPT ![o[3]] = CASE o[1] = "neg" -> Trunc(PNeg(@))
                          [] o[1] = "conj" -> Conj(@)
                          [] OTHER -> Trunc(Bin(o[1], @, Operand(reg, o)))]
Start(at, seed) == <<<<at[1], seed[1]>>, <<at[2], seed[2]>>>>
RECURSIVE Run(_, _)
Run(reg, ops) == <<reg>> \o (IF ops = <<>> THEN <<>> ELSE Run(Apply(reg, ops[1]), Tail(ops)))

(* the operations of a history: name, form of the operand, register,       *)
(* register of the operand, number                                         *)
OpSet(C) ==
  {<<n, "", i, i, 0>> : n \in {"neg", "conj"}, i \in {1, 2}}
  \cup {<<n, f, i, j, 0>> : n \in {"add", "sub", "mul"}, f \in {"d", "rd"}, i \in {1, 2}, j \in {1, 2}}
  \cup {<<n, f, i, i, c>> : n \in {"add", "sub", "mul"}, f \in {"v", "rv"}, i \in {1, 2}, c \in C}

(* ---------------------------------------------------------------- answers *)
(* after each step: value and one adjoint per direction, of both registers *)
Rows(runs) == [t \in 1..Len(runs[1]) |->
                 LET Reg(i) == <<runs[1][t][i][1]>> \o [k \in 1..Len(runs) |-> runs[k][t][i][2]]
                 IN Reg(1) \o Reg(2)]
SameRow(m, o) == Len(m) = Len(o) /\ \A i \in DOMAIN m : Agree(m[i], o[i])
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
Pair(s, v, a) == [k |-> "pair", s |-> s, d |-> <<v, a>>, w |-> s]
Expect(r) ==
  IF r.op = "hist"
  THEN [k |-> "hist", s |-> <<>>, d |-> Rows([k \in 1..Len(r.seed) |-> Run(Start(r.at, r.seed[k]), r.ops)]), w |-> <<>>]
  ELSE LET A == r.a.d B == r.b.d s == r.a.s IN
  CASE r.op = "variable" -> Pair(s, A, Ones(Len(A)))
    [] r.op \in {"constant", "macro1"} -> Pair(s, A, Zeros(Len(A)))
    [] r.op \in {"macro2", "from"} -> Pair(s, A, B)
    [] r.op = "conj" -> Pair(s, A, [i \in 1..Len(B) |-> Fneg(B[i])])
Ok(r) == LET w == Expect(r) IN
  IF r.op = "hist" THEN /\ r.out.k = "hist" /\ Len(r.out.d) = Len(w.d)
                        /\ \A t \in DOMAIN w.d : SameRow(w.d[t], r.out.d[t])
  ELSE r.out = w

(* --------------------------------------------------------------- requests *)
Tensors == {<<"s-z", <<>>>>, <<"s-f64", <<>>>>, <<"s-f32", <<>>>>, <<"s-i32", <<>>>>, <<"t-z", <<2>>>>, <<"t-f64", <<2>>>>,
            <<"v-z", <<0>>>>, <<"v-z", <<3>>>>, <<"v-f64", <<5>>>>, <<"a1-z", <<3>>>>, <<"a1-f64", <<2>>>>,
            <<"a2-z", <<3, 2>>>>, <<"a2-f64", <<2, 3>>>>, <<"a3-f64", <<2, 1, 2>>>>, <<"a4-z", <<2, 2, 1, 2>>>>,
            <<"a5-z", <<2, 2, 1, 2, 1>>>>}
Requests(area) ==
  {[op |-> op, f |-> t[1], s |-> t[2]] : t \in Tensors,
     op \in {"variable", "constant", "macro1", "macro2", "from", "conj"}}
=============================================================================

------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Buffers: a shape (sequence of dimensions) and the entries in row-major  *)
(* order.  Everything is defined from index arithmetic.                    *)
(***************************************************************************)
EXTENDS Jet, FiniteSets, TLC

RECURSIVE Card(_)
Card(s) == IF s = <<>> THEN 1 ELSE s[1] * Card(Tail(s))

(* row-major position (from 0) of a multi-index, and back *)
RECURSIVE Pos(_, _), Unpos(_, _)
Pos(s, ix) == IF s = <<>> THEN 0 ELSE ix[1] * Card(Tail(s)) + Pos(Tail(s), Tail(ix))
Unpos(s, p) == IF s = <<>> THEN <<>>
               ELSE LET c == Card(Tail(s)) IN <<p \div c>> \o Unpos(Tail(s), p % c)
InShape(s, ix) == Len(ix) = Len(s) /\ \A i \in 1..Len(s) : ix[i] \in 0..(s[i] - 1)
Diag(ix) == \A i, j \in 1..Len(ix) : ix[i] = ix[j]

T(s, d) == [s |-> s, d |-> d]
At(t, ix) == t.d[Pos(t.s, ix) + 1]
Build(s, f(_)) == T(s, [p \in 1..Card(s) |-> f(Unpos(s, p - 1))])

Full(s, x) == T(s, [p \in 1..Card(s) |-> x])
Diagonal(s, x) == Build(s, LAMBDA ix : IF Diag(ix) THEN x ELSE 0)
Dense(k, s, d) == CASE k = "raw" -> T(s, d)
                    [] k = "full" -> Full(s, d[1])
                    [] k = "diag" -> Diagonal(s, d[1])

Compatible(a, b) == a = b \/ a = <<>> \/ b = <<>>
Broad(a, b) == IF a = <<>> THEN b ELSE a

(* element-wise operations on tensors of jets of level n *)
TMap(n, op, t) == T(t.s, [p \in 1..Len(t.d) |-> J1(n, op, t.d[p])])
TZip(n, op, a, b) ==
  IF a.s = b.s THEN T(a.s, [p \in 1..Len(a.d) |-> J2(n, op, a.d[p], b.d[p])])
  ELSE IF b.s = <<>> THEN T(a.s, [p \in 1..Len(a.d) |-> J2(n, op, a.d[p], b.d[1])])
  ELSE T(b.s, [p \in 1..Len(b.d) |-> J2(n, op, a.d[1], b.d[p])])

RECURSIVE JSum(_, _)
JSum(n, q) == IF q = <<>> THEN JC(n, 0) ELSE JAdd(n, q[1], JSum(n, Tail(q)))
TSum(n, t) == T(<<>>, <<JSum(n, t.d)>>)

(* x[i..] * y[j..] *)
TProd(n, a, b) ==
  LET w == Len(b.d) IN
  T(a.s \o b.s, [p \in 1..(Len(a.d) * w) |->
                   JMul(n, a.d[((p - 1) \div w) + 1], b.d[((p - 1) % w) + 1])])

(* last axis of the left against the first axis of the right *)
DotCompatible(a, b) == a = <<>> \/ b = <<>> \/ a[Len(a)] = b[1]
TDot(n, a, b) ==
  IF a.s = <<>> \/ b.s = <<>> THEN TProd(n, a, b)
  ELSE LET z == b.s[1]
           sa == SubSeq(a.s, 1, Len(a.s) - 1)
           sb == Tail(b.s)
           w == Card(sb)
           Entry(i, j) == JSum(n, [k \in 1..z |-> JMul(n, a.d[i * z + k], b.d[(k - 1) * w + j + 1])])
       IN T(sa \o sb, [p \in 1..(Card(sa) * w) |-> Entry((p - 1) \div w, (p - 1) % w)])

TAgree(m, o) == m.s = o.s /\ Len(m.d) = Len(o.d) /\ \A p \in 1..Len(m.d) : Agree(m.d[p], o.d[p])
TLevel(c, t) == T(t.s, [p \in 1..Len(t.d) |-> c])
=============================================================================

------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Reading printed expressions as mathematical notation.                   *)
(*                                                                         *)
(* A token is <<"w", text>> or <<"n", integer>>; the special characters    *)
(* are spelled out (EULER, RING, LANGLE, ...).  Precedence: brackets and   *)
(* function application, then powers (right associative), then products    *)
(* and quotients (left to right), then sums and differences.  A minus sign *)
(* where an operand is expected negates the power that follows it.         *)
(***************************************************************************)
EXTENDS Eval

NumE(v) == <<"const", "S", <<>>, <<v>>>>

Funs == [sin |-> "sin", cos |-> "cos", tan |-> "tan", sinh |-> "sinh", cosh |-> "cosh", tanh |-> "tanh",
         asin |-> "asin", acos |-> "acos", atan |-> "atan", asinh |-> "asinh", acosh |-> "acosh",
         atanh |-> "atanh", ln |-> "lnr", erf |-> "erf", sgn |-> "sign"]
       @@ ("SIGMOID" :> "sigmoid") @@ ("DIRAC" :> "dirac") @@ ("GAMMA" :> "gamma")
       @@ ("PSI" :> "digamma") @@ ("LNGAMMA" :> "lgamma")

Tok(q, i) == IF i <= Len(q) THEN q[i] ELSE <<"w", "">>
IsW(q, i, w) == LET t == Tok(q, i) IN t[1] = "w" /\ t[2] = w
IsAny(q, i, ws) == LET t == Tok(q, i) IN t[1] = "w" /\ t[2] \in ws

Got(e, i) == [ok |-> TRUE, e |-> e, i |-> i]
None == [ok |-> FALSE, e |-> <<>>, i |-> 0]

RECURSIVE PSum(_, _, _), PSumRest(_, _, _, _), PProd(_, _, _), PProdRest(_, _, _, _)
RECURSIVE PSigned(_, _, _), PPow(_, _, _), PAtom(_, _, _)

Close(r, q, w, k(_)) == IF r.ok /\ IsW(q, r.i, w) THEN Got(k(r.e), r.i + 1) ELSE None

PAtom(q, i, ids) ==
  LET t == Tok(q, i) IN
  IF t[1] = "n" THEN Got(NumE(Fint(t[2])), i + 1)
  ELSE CASE t[2] = "(" -> Close(PSum(q, i + 1, ids), q, ")", LAMBDA e : e)
         [] t[2] = "|" -> Close(PSum(q, i + 1, ids), q, "|", LAMBDA e : <<"abs", e>>)
         [] t[2] = "LANGLE" ->
              LET l == PSum(q, i + 1, ids) IN
              IF ~l.ok \/ ~IsW(q, l.i, ",") THEN None
              ELSE Close(PSum(q, l.i + 1, ids), q, "RANGLE", LAMBDA e : <<"dot", l.e, e>>)
         [] t[2] = "HALF" -> Got(NumE(Half(1)), i + 1)
         [] t[2] = "EULER" ->
              IF IsW(q, i + 1, "^")
              THEN LET r == PSigned(q, i + 2, ids) IN IF r.ok THEN Got(<<"exp", r.e>>, r.i) ELSE None
              ELSE Got(<<"exp", NumE(1)>>, i + 1)
         [] t[2] = "PI" -> Got(NumE(PI), i + 1)
         [] t[2] = "IMAG" -> IF IsW(q, i + 1, "PI") THEN Got(NumE(BOT), i + 2) ELSE Got(NumE(BOT), i + 1)
         [] t[2] = "INF" -> Got(NumE(BOT), i + 1)
         [] t[2] \in DOMAIN Funs /\ IsW(q, i + 1, "(") ->
              Close(PSum(q, i + 2, ids), q, ")", LAMBDA e : <<Funs[t[2]], e>>)
         [] t[2] = "SUM_i" /\ IsW(q, i + 1, "(") ->
              LET r == PSum(q, i + 2, ids) IN
              IF r.ok /\ IsW(q, r.i, ")") /\ IsW(q, r.i + 1, "_i") THEN Got(<<"sum", r.e>>, r.i + 2) ELSE None
         [] t[2] \in ids -> Got(<<"var", t[2]>>, i + 1)
         [] OTHER -> None

(* a power; the exponent may carry a sign *)
PPow(q, i, ids) ==
  LET b == PAtom(q, i, ids) IN
  IF b.ok /\ IsW(q, b.i, "^")
  THEN LET x == PSigned(q, b.i + 1, ids) IN IF x.ok THEN Got(<<"pow", b.e, x.e>>, x.i) ELSE None
  ELSE b
PSigned(q, i, ids) ==
  IF IsW(q, i, "-")
  THEN LET r == PSigned(q, i + 1, ids) IN IF r.ok THEN Got(<<"neg", r.e>>, r.i) ELSE None
  ELSE PPow(q, i, ids)

ProdOps == {"RING", "TENSOR", "/", "*"}
PProd(q, i, ids) == LET l == PSigned(q, i, ids) IN IF l.ok THEN PProdRest(q, l.i, ids, l.e) ELSE None
PProdRest(q, i, ids, l) ==
  IF ~IsAny(q, i, ProdOps) THEN Got(l, i)
  ELSE LET r == PSigned(q, i + 1, ids)
           op == CASE q[i][2] = "/" -> "div" [] q[i][2] = "TENSOR" -> "tprod" [] OTHER -> "mul"
       IN IF r.ok THEN PProdRest(q, r.i, ids, <<op, l, r.e>>) ELSE None

PSum(q, i, ids) == LET l == PProd(q, i, ids) IN IF l.ok THEN PSumRest(q, l.i, ids, l.e) ELSE None
PSumRest(q, i, ids, l) ==
  IF ~IsAny(q, i, {"+", "-"}) THEN Got(l, i)
  ELSE LET r == PProd(q, i + 1, ids) IN
       IF r.ok THEN PSumRest(q, r.i, ids, <<IF q[i][2] = "+" THEN "add" ELSE "sub", l, r.e>>) ELSE None

Parse(q, ids) == LET r == PSum(q, 1, ids) IN IF r.ok /\ r.i = Len(q) + 1 THEN r ELSE None

(* powers of numbers outside the model's integers are left unspecified *)
RenderTags(e, ev, c) ==
  LET m == Ev(e, Start(c))
      p == Parse(ev.res.ok.tok, DOMAIN c)
  IN IF ~m.ok THEN {}
     ELSE IF ~p.ok THEN {"render"}
     ELSE LET t == Ev(p.e, Start(c)) IN
          IF ~t.ok THEN {"render"}
          ELSE IF /\ t.v.s = m.v.s \/ t.v.s = <<>>
                  /\ \A k \in 1..Len(m.v.d) :
                       LET x == IF t.v.s = <<>> THEN t.v.d[1] ELSE t.v.d[k]
                       IN x = BOT \/ m.v.d[k] = BOT \/ x = m.v.d[k]
               THEN {} ELSE {"render"}
=============================================================================

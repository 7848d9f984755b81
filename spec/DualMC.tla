------------------------------- MODULE DualMC -------------------------------
(***************************************************************************)
(* All histories of up to DEPTH operations on two registers.  Register 1   *)
(* starts as the variable X, register 2 as y + d*(X - x).                  *)
(***************************************************************************)
EXTENDS DualNum, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
At0 == <<11, 32741>>
VARIABLES reg, tp, hist, d
vars == <<reg, tp, hist, d>>
NONE == <<-5>>

Init == /\ d \in {0, 1, 3}
        /\ reg = Start(At0, <<1, d>>)
        /\ tp = <<<<0, 1>>, <<Fsub(At0[2], Fmul(d, At0[1])), d>>>>
        /\ hist = <<>>
Poly(o) ==
  LET a == tp[o[3]] b == IF o[2] \in {"d", "rd"} THEN tp[o[4]] ELSE <<o[5]>> IN
  IF o[1] = "conj" \/ a = NONE \/ (o[1] # "neg" /\ b = NONE) THEN NONE
  ELSE IF o[1] = "neg" THEN PNeg(a) ELSE Bin(o[1], a, b)
Next == /\ Len(hist) < Depth
        /\ \E o \in OpSet({5}) :
             /\ reg' = Apply(reg, o) /\ tp' = [tp EXCEPT ![o[3]] = Poly(o)]
             /\ hist' = Append(hist, o) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

(* the dual number is the value and the derivative of what was computed *)
Exact == \A i \in {1, 2} : tp[i] # NONE =>
           reg[i] = <<Horner(tp[i], At0[1]), Horner(Deriv(tp[i]), At0[1])>>
(* conjugating twice changes nothing; d * conj(d) has no adjoint *)
Conjugate == \A i \in {1, 2} : Conj(Conj(reg[i])) = reg[i]
                               /\ Trunc(PMul(reg[i], Conj(reg[i])))[2] = 0
Emit == Len(hist) = Depth /\ d = 1 => PrintT("H " \o ToJson(hist))
=============================================================================

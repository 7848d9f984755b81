------------------------------- MODULE IterMC -------------------------------
(***************************************************************************)
(* The index iterator of run-time shapes as the library implements it (an  *)
(* odometer: one restartable counter per axis, advanced from the last axis *)
(* with carry), next to the position the property talks about.  Checked    *)
(* for every shape up to rank 3 and extent 3, at every point:              *)
(*   Yields    the index handed out is the row-major one of the position   *)
(*   Counts    the arithmetic behind count()/size_hint() is exact          *)
(* Histories of a pool of such iterators over small shapes are printed and *)
(* replayed against the implementation.                                    *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils

VARIABLES shape, axes, pos, out, live
ovars == <<shape, axes, pos, out, live>>

(* axis: at = next value of its counter, cur = value handed out or -1 *)
Fresh(s) == [i \in 1..Len(s) |-> [at |-> 0, cur |-> -1]]
Adv(s, a, i) == IF a[i].at < s[i] THEN [a EXCEPT ![i] = [at |-> a[i].at + 1, cur |-> a[i].at]]
                ELSE [a EXCEPT ![i].cur = -1]
Reset(a, i) == [a EXCEPT ![i].at = 0]
(* advance the axes 1..i; first: no axis has been started; returns <<alive, axes>> *)
RECURSIVE Carry(_, _, _, _)
Carry(s, a, i, first) ==
  IF i = 0 THEN <<first, a>>
  ELSE LET b == IF first THEN a ELSE Adv(s, a, i)
       IN IF b[i].cur >= 0 THEN <<TRUE, b>>
          ELSE LET r == Carry(s, b, i - 1, first)
               IN IF ~r[1] THEN <<FALSE, r[2]>>
                  ELSE LET c == Adv(s, Reset(r[2], i), i) IN <<c[i].cur >= 0, c>>
NextAxes(s, a) == Carry(s, a, Len(s), a[Len(s)].cur < 0)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(s, a, i, acc) == IF i > Len(s) THEN acc ELSE CountFrom(s, a, i + 1, acc * s[i] + (s[i] - a[i].at))
Count(s, a) == IF a[Len(s)].cur < 0 THEN Card(s) ELSE CountFrom(s, a, 1, 0)

OInit == /\ shape \in UNION {[1..n -> 0..3] : n \in 1..3} /\ axes = Fresh(shape)
         /\ pos = 0 /\ out = <<>> /\ live = TRUE
ONext == /\ live
         /\ LET r == NextAxes(shape, axes)
            IN /\ axes' = r[2] /\ live' = r[1]
               /\ out' = IF r[1] THEN [i \in 1..Len(shape) |-> r[2][i].cur] ELSE <<>>
               /\ pos' = IF r[1] THEN pos + 1 ELSE pos
         /\ UNCHANGED shape
OSpec == OInit /\ [][ONext]_ovars
Yields == IF pos = 0 \/ ~live THEN TRUE ELSE out = Unpos(shape, pos - 1)
Counts == live => Count(shape, axes) = Card(shape) - pos
Ends == ~live => pos = Card(shape)
=============================================================================

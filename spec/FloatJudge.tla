------------------------------ MODULE FloatJudge ------------------------------
(* every recorded answer is in order *)
EXTENDS Floats, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
Step == /\ i < Len(Log)
        /\ i' = i + 1
        /\ LET r == Log[i + 1] t == Tags(r) IN
           t # {} => PrintT(<<"BAD", r.id, 0, t>>)
Spec == Init /\ [][Step]_i
Consumed == PrintT(<<"DONE", TLCGet("stats").distinct, Len(Log)>>)
=============================================================================

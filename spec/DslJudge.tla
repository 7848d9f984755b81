------------------------------ MODULE DslJudge ------------------------------
(* every recorded tree is one its notation denotes *)
EXTENDS Dsl, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
Step == /\ i < Len(Log)
        /\ i' = i + 1
        /\ LET r == Log[i + 1] w == Tree(r.e) IN
           ~Same(w, r.out) => PrintT(<<"BAD", r.id, 0, {"tree"}>>) /\ PrintT(<<"WANT", r.id, w>>)
Spec == Init /\ [][Step]_i
Consumed == PrintT(<<"DONE", TLCGet("stats").distinct, Len(Log)>>)
=============================================================================

------------------------------ MODULE ContractJudge ------------------------------
(* every recorded answer is the expected one *)
EXTENDS Contract, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
Step == /\ i < Len(Log)
        /\ i' = i + 1
        /\ LET r == Log[i + 1] w == Expect(r) IN
           r.out # w => PrintT(<<"BAD", r.id, 0, {"answer"}>>) /\ PrintT(<<"WANT", r.id, w>>)
Spec == Init /\ [][Step]_i
Consumed == PrintT(<<"DONE", TLCGet("stats").distinct, Len(Log)>>)
=============================================================================

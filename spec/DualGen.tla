------------------------------- MODULE DualGen -------------------------------
(* writes the requests of one property (IOEnv.AREA) to IOEnv.OUT *)
EXTENDS DualNum, Json, IOUtils, SequencesExt
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Requests(IOEnv.AREA)))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

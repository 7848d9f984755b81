------------------------------ MODULE IterHist ------------------------------
(* all histories of DEPTH operations on a pool of at most two iterators *)
EXTENDS Shapes, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES shape, pool, hist
vars == <<shape, pool, hist>>
Init == shape \in {<<>>, <<3>>, <<2, 2>>, <<2, 0>>, <<1, 2>>, <<2, 1, 2>>} /\ pool = <<0>> /\ hist = <<>>
Do(e) == hist' = Append(hist, e) /\ pool' = IterPool(shape, pool, e) /\ UNCHANGED shape
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN pool :
             /\ pool[i] # GONE
             /\ \/ \E op \in {"next", "hint", "count", "last", "rest"} : Do(<<op, i, 0>>)
                \/ \E k \in {0, 1, 2} : Do(<<"nth", i, k>>)
                \/ Len(pool) < 2 /\ Do(<<"clone", i, 0>>)
Spec == Init /\ [][Next]_vars
Whole == Len(hist) = Depth \/ \A i \in DOMAIN pool : pool[i] = GONE
Emit == Whole => PrintT("H " \o ToJson([s |-> shape, ev |-> hist]))
(* positions never leave the enumeration *)
InRange == \A i \in DOMAIN pool : pool[i] \in {GONE} \cup (0..Card(shape))
=============================================================================

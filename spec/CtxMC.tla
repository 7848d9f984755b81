------------------------------- MODULE CtxMC -------------------------------
(* all histories of DEPTH operations on contexts of up to N fields *)
EXTENDS Ctx, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
N == atoi(IOEnv.FIELDS)
Values == {<<3, 4>>, <<5, 6>>}
VARIABLES caches, st, hist
vars == <<caches, st, hist>>
Init == /\ caches \in UNION {[1..n -> BOOLEAN] : n \in 1..N}
        /\ st = Initial(caches, [i \in DOMAIN caches |-> Some(T(<<2>>, <<i, i>>))])
        /\ hist = <<>>
Do(op, h) == st' = After(st, op) /\ hist' = Append(hist, h) /\ UNCHANGED caches
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN st :
             \/ \E v \in Values : Do(<<"write", i, [k |-> "raw", s |-> <<2>>, d |-> v]>>, <<"write", i, v[1]>>)
             \/ \E f \in {"raw", "full", "diag"} : Do(<<"wspec", i, [k |-> f, s |-> <<2>>, d |-> <<3, 4>>]>>, <<"wspec", i, f>>)
             \/ \E j \in DOMAIN st \ {i} : caches[j] /\ Do(<<"cache", i, j>>, <<"cache", i, j>>)
Spec == Init /\ [][Next]_vars
Whole == Len(hist) = Depth => PrintT("H " \o ToJson([c |-> caches, ev |-> hist]))

(* plain fields are always defined *)
PlainDefined == \A i \in DOMAIN st : ~caches[i] => st[i] # Undef
Typed == \A i \in DOMAIN st : st[i] = Undef \/ (st[i].s = <<2>> /\ Len(st[i].d) = 2)
Last == hist'[Len(hist')]
Target == IF Last[1] = "cache" THEN Last[3] ELSE Last[2]
(* an operation changes what it is aimed at and nothing else *)
Isolated == [][\A i \in DOMAIN st : i # Target => st'[i] = st[i]]_vars
(* nothing that was defined becomes undefined *)
StaysDefined == [][\A i \in DOMAIN st : st[i] # Undef => st'[i] # Undef]_vars
(* a cache that holds a value keeps it until it is written to *)
CacheKept == [][Last[1] = "cache" /\ st[Last[3]] # Undef => st' = st]_vars
=============================================================================

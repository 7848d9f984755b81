-------------------------------- MODULE Show --------------------------------
(* What the specification expects for each event of the recorded histories  *)
(* in TRACE; used to explain a violation.                                   *)
EXTENDS Trace
Want(ev, c) ==
  CASE ev.op \in {"eval", "spec", "shape"} -> Ev(exprs[ev.e], Start(c))
    [] ev.op = "evadj" -> EvAdj(exprs[ev.e], ev.id, Start(c))
    [] ev.op = "dual" -> EvDual(exprs[ev.e], ev.id, Start(c))
    [] ev.op = "has" -> [ok |-> TRUE, v |-> Has(exprs[ev.e], ev.id)]
    [] ev.op = "render" -> [ok |-> TRUE, v |-> <<Ev(exprs[ev.e], Start(c)).v, Parse(ev.res.ok.tok, DOMAIN c)>>]
    [] OTHER -> [ok |-> TRUE, v |-> "-"]
ShowStep == /\ Step
            /\ ei < Len(Log[si].events) =>
                 LET w == Want(Log[si].events[ei + 1], ctx)
                 IN PrintT(<<"WANT", ei + 1, IF w.ok THEN w.v ELSE <<"error", w.path, w.leaf>>>>)
ShowSpec == Init /\ [][ShowStep]_vars
=============================================================================

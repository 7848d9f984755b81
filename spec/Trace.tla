-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation against the           *)
(* specification.  A history (one JSON object per line) is a list of       *)
(* expressions, an initial context and a sequence of events, each with the *)
(* operation, its observed result and the context observed afterwards.     *)
(*                                                                         *)
(* Every event must be one the specification allows in the state the       *)
(* implementation was in.  Events that are not allowed are printed with    *)
(* the aspects in which they deviate; checking goes on from the observed   *)
(* state, so that one deviation does not hide another.                     *)
(***************************************************************************)
EXTENDS Eval, Render, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES si, ei, ctx, exprs, bad
vars == <<si, ei, ctx, exprs, bad>>

Is(r, f) == f \in DOMAIN r

(* ---------------- the context afterwards ---------------- *)
SameCell(a, b) == a.s = b.s /\ a.d = b.d
CtxTags(slots, st, c, after) ==
  LET ids == DOMAIN c \cup DOMAIN after \cup DOMAIN st.c
      Cond(id) ==
        IF id \in DOMAIN after
        THEN (IF id \in DOMAIN st.c
              THEN TAgree(st.c[id], after[id]) /\ (id \in DOMAIN c => after[id] = c[id])
              ELSE \E m \in st.may : m[1] = id /\ TAgree(m[2], after[id]))
        ELSE id \notin DOMAIN st.c
  IN {IF id \in slots THEN "slot" ELSE "ctxvar" : id \in {i \in ids : ~Cond(i)}}

(* after a failure slots may stay empty or hold what the model computed *)
CtxTagsFail(slots, st, c, after) ==
  LET Cond(id) == IF id \in DOMAIN c
                  THEN id \in DOMAIN after /\ after[id] = c[id]
                  ELSE id \in DOMAIN after =>
                         \/ id \in DOMAIN st.c /\ TAgree(st.c[id], after[id])
                         \/ \E m \in st.may : m[1] = id /\ TAgree(m[2], after[id])
  IN {IF id \in slots THEN "slot" ELSE "ctxvar" : id \in {i \in DOMAIN c \cup DOMAIN after : ~Cond(i)}}

(* ---------------- results ---------------- *)
(* the text of an error names its cause: the identifier, or both shapes with *)
(* the left one first                                                        *)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(q, r) == IF q = <<>> THEN TRUE ELSE IF r = <<>> THEN FALSE
                  ELSE IF q[1] = r[1] THEN SubSeqOf(Tail(q), Tail(r)) ELSE SubSeqOf(q, Tail(r))
Numbers(tok) == LET ns == SelectSeq(tok, LAMBDA t : t[1] = "n") IN [i \in 1..Len(ns) |-> ns[i][2]]
Says(err) ==
  IF err.leaf[1] = "undef" THEN \E i \in DOMAIN err.msg : err.msg[i][1] = "w" /\ err.msg[i][2] = err.leaf[2]
  ELSE SubSeqOf(err.leaf[2] \o err.leaf[3], Numbers(err.msg))

ErrTags(m, o) ==
  (IF Says(o.err) THEN {} ELSE {"err"}) \cup
  IF m.leaf[1] = "any"
  THEN IF o.err.leaf[1] = "undef" /\ o.err.leaf[2] \in m.leaf[2] THEN {} ELSE {"err"}
  ELSE IF o.err.path = m.path /\ o.err.leaf = m.leaf THEN {} ELSE {"err"}

OutTags(m, o, agree(_)) ==
  IF Is(o, "panic") THEN {"panic"}
  ELSE IF m.ok THEN (IF Is(o, "err") THEN {"err"}
                     ELSE IF m.st.unk \/ agree(o.ok) THEN {} ELSE {"value"})
  ELSE IF Is(o, "ok") THEN {"err"} ELSE ErrTags(m, o)

(* evaluations of the expression memoised in each slot *)
RECURSIVE DirectProbes(_)
DirectProbes(e) == CASE e[1] \in {"var", "const", "sconst"} -> {}
                     [] e[1] = "cache" -> (IF e[3][1] = "probe" THEN {<<e[2], e[3][2]>>} ELSE {}) \cup DirectProbes(e[3])
                     [] e[1] \in {"adj", "probe"} -> DirectProbes(e[3])
                     [] IsBinary(e) -> DirectProbes(e[2]) \cup DirectProbes(e[3])
                     [] OTHER -> DirectProbes(e[2])
RECURSIVE Total(_, _)
Total(p, ks) == IF ks = {} THEN 0
                ELSE LET k == CHOOSE x \in ks : TRUE IN
                     (IF k \in DOMAIN p THEN p[k] ELSE 0) + Total(p, ks \ {k})
(* how often the expression of a slot was evaluated: exactly as often as the *)
(* model says; when derivatives are involved, at most once per empty slot    *)
ProbeTags(e, m, ev) ==
  LET pc == ev.pc
      exact == ev.op \notin {"evadj", "dual"} /\ ~HasAdj(e) IN
      LET dp == DirectProbes(e)
           Ks(id, f(_)) == {f(d[2]) : d \in {x \in dp : x[1] = id}}
           PN(k) == "p" \o ToString(k)
           Ok(id) == LET want == Total(m.st.p, Ks(id, ToString))
                         got == Total(pc, Ks(id, PN))
                     IN IF ~exact THEN got <= (IF id \in DOMAIN ctx THEN 0 ELSE 1)
                        ELSE IF m.ok THEN got = want ELSE got <= want
       IN IF \A d \in dp : Ok(d[1]) THEN {} ELSE {"probe"}

EvalTags(e, m, ev, agree(_)) ==
  OutTags(m, ev.res, agree)
  \cup (IF Is(ev.res, "panic") THEN {}
        ELSE IF m.ok THEN CtxTags(Slots(e), m.st, ctx, ev.ctx) ELSE CtxTagsFail(Slots(e), m.st, ctx, ev.ctx))
  \cup (IF Is(ev.res, "panic") THEN {} ELSE ProbeTags(e, m, ev))

(* reductions know their shape without looking at their operand *)
RECURSIVE Blind(_)
Blind(e) == CASE e[1] \in {"var", "const", "sconst"} -> FALSE
              [] e[1] \in {"sum", "pow"} -> TRUE
              [] e[1] \in {"cache", "probe", "adj"} -> Blind(e[3])
              [] IsBinary(e) -> Blind(e[2]) \/ Blind(e[3])
              [] OTHER -> Blind(e[2])

(* ---------------- one event ---------------- *)
Tags(ev) ==
  IF ev.op \in {"set", "clr", "clone"} THEN
    LET want == CASE ev.op = "set" -> (ev.id :> Cell(ev.v.k, Dense(ev.v.k, ev.v.s, ev.v.d))) @@ ctx
                  [] ev.op = "clr" -> [i \in DOMAIN ctx \ {ev.id} |-> ctx[i]]
                  [] OTHER -> ctx
    IN IF \A i \in DOMAIN want \cup DOMAIN ev.ctx : i \in DOMAIN want /\ i \in DOMAIN ev.ctx /\ SameCell(want[i], ev.ctx[i])
       THEN {} ELSE {"ctxvar"}
  ELSE LET e == exprs[ev.e] IN
  CASE ev.op = "eval" ->
         LET m == Ev(e, Start(ctx)) IN EvalTags(e, m, ev, LAMBDA o : TAgree(m.v, o))
    [] ev.op = "evadj" ->
         LET m == EvAdj(e, ev.id, Start(ctx)) IN EvalTags(e, m, ev, LAMBDA o : TAgree(m.v, o))
    [] ev.op = "dual" ->
         LET m == EvDual(e, ev.id, Start(ctx))
         IN EvalTags(e, m, ev, LAMBDA o : TAgree(m.v[1], o.v) /\ TAgree(m.v[2], o.a))
    [] ev.op = "has" ->
         IF Is(ev.res, "panic") THEN {"panic"}
         ELSE (IF HasKnown(e, ev.id) /\ ev.res.ok # Has(e, ev.id) THEN {"has"} ELSE {})
              \cup (IF ev.ctx = ctx THEN {} ELSE {"ctxvar"})
    [] ev.op = "shape" ->
         \* the shape query against evaluation in the same state (ev.ref)
         (CASE Is(ev.res, "panic") -> {"panic"}
            [] Is(ev.ref, "ok") /\ Is(ev.res, "err") -> {"shape"}
            [] Is(ev.ref, "ok") /\ Is(ev.res, "ok") -> IF ev.res.ok = ev.ref.ok.s THEN {} ELSE {"shape"}
            [] Is(ev.ref, "err") /\ ev.ref.err.leaf[1] = "inc" ->
                 IF Blind(e) \/ (Is(ev.res, "err") /\ ev.res.err = ev.ref.err) THEN {} ELSE {"shape"}
            [] OTHER -> {})
         \* and it may memoise on the way, whatever it does not look at
         \cup LET m == Ev(e, Start(ctx))
                  able == {c \in Caches(e) : Vars(c[2]) \subseteq DOMAIN ctx}
                  vals == {<<c[1], Ev(c[2], Start(ctx))>> : c \in able}
                  may == {<<v[1], v[2].v>> : v \in {w \in vals : w[2].ok}}
              IN CtxTagsFail(Slots(e), [m.st EXCEPT !.may = @ \cup may], ctx, ev.ctx)
    [] ev.op = "spec" ->
         LET m == Ev(e, Start(ctx))
             \* where the value is not defined the two may differ (0 times a pole)
             Open(p) == m.ok /\ m.v.s = ev.dn.ok.s /\ m.v.d[p] = BOT
         IN
         (CASE Is(ev.res, "panic") -> IF Is(ev.dn, "panic") THEN {} ELSE {"twin"}
            [] Is(ev.res, "ok") /\ Is(ev.dn, "ok") ->
                 IF /\ ev.res.ok.s = ev.dn.ok.s
                    /\ \A p \in 1..Len(ev.dn.ok.d) :
                         ev.dn.ok.d[p] < 0 \/ Open(p) \/ Agree(ev.dn.ok.d[p], ev.res.ok.d[p])
                    /\ ev.res.ok.ws = ev.res.ok.s
                 THEN {} ELSE {"twin"}
            [] Is(ev.res, "err") /\ Is(ev.dn, "err") -> IF ev.res.err = ev.dn.err THEN {} ELSE {"twin"}
            [] OTHER -> {"twin"})
         \cup EvalTags(e, m, ev, LAMBDA o : TAgree(m.v, o))
    [] ev.op = "render" ->
         IF Is(ev.res, "panic") THEN {"panic"} ELSE RenderTags(e, ev, ctx)

Init == /\ si = 1 /\ ei = 0 /\ bad = {}
        /\ ctx = IF Len(Log) = 0 THEN <<>> ELSE Log[1].ctx0
        /\ exprs = IF Len(Log) = 0 THEN <<>> ELSE Log[1].exprs

Step ==
  /\ si <= Len(Log)
  /\ IF ei < Len(Log[si].events)
     THEN LET ev == Log[si].events[ei + 1]
              tags == Tags(ev)
          IN /\ bad' = tags
             /\ tags # {} => PrintT(<<"BAD", Log[si].id, ei + 1, tags>>)
             /\ ctx' = ev.ctx
             /\ exprs' = IF ev.op = "clone" THEN Append(exprs, exprs[ev.e]) ELSE exprs
             /\ ei' = ei + 1 /\ si' = si
     ELSE /\ si' = si + 1 /\ ei' = 0 /\ bad' = {}
          /\ ctx' = IF si < Len(Log) THEN Log[si + 1].ctx0 ELSE <<>>
          /\ exprs' = IF si < Len(Log) THEN Log[si + 1].exprs ELSE <<>>

Next == Step
Spec == Init /\ [][Next]_vars

(* every event was consumed *)
Consumed == PrintT(<<"DONE", TLCGet("stats").distinct, Len(Log)>>)
=============================================================================

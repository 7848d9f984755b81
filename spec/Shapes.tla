------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Shapes and their indices: enumeration (an iterator is a position in the *)
(* row-major order of the indices), membership, concatenation, splitting   *)
(* and broadcasting, for shapes fixed at compile time ("st") and at run    *)
(* time ("dyn").                                                           *)
(***************************************************************************)
EXTENDS Tensor

(* --------------------------------------------------------------- iterators *)
(* a pool of iterators: each the number of indices already yielded, GONE    *)
(* when it was consumed or has reported its end                             *)
GONE == -1
Left(s, p) == Card(s) - p
IterRes(s, pool, e) ==
  LET p == IF e[2] \in DOMAIN pool THEN pool[e[2]] ELSE GONE IN
  CASE e[1] \in {"fresh", "clone"} -> <<>>
    [] e[1] = "next" -> IF p < Card(s) THEN <<Unpos(s, p)>> ELSE <<>>
    [] e[1] = "nth" -> IF p + e[3] < Card(s) THEN <<Unpos(s, p + e[3])>> ELSE <<>>
    [] e[1] = "hint" -> <<Left(s, p), Left(s, p)>>
    [] e[1] = "count" -> <<Left(s, p)>>
    [] e[1] = "last" -> IF p < Card(s) THEN <<Unpos(s, Card(s) - 1)>> ELSE <<>>
    [] e[1] = "rest" -> [q \in 1..Left(s, p) |-> Unpos(s, p + q - 1)]
IterPool(s, pool, e) ==
  LET p == IF e[2] \in DOMAIN pool THEN pool[e[2]] ELSE GONE IN
  CASE e[1] = "fresh" -> Append(pool, 0)
    [] e[1] = "clone" -> Append(pool, p)
    [] e[1] = "next" -> [pool EXCEPT ![e[2]] = IF p < Card(s) THEN p + 1 ELSE GONE]
    [] e[1] = "nth" -> [pool EXCEPT ![e[2]] = IF p + e[3] < Card(s) THEN p + e[3] + 1 ELSE GONE]
    [] e[1] = "hint" -> pool
    [] OTHER -> [pool EXCEPT ![e[2]] = GONE]
RECURSIVE Run(_, _, _)
Run(s, pool, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE <<IterRes(s, pool, evs[1])>> \o Run(s, IterPool(s, pool, evs[1]), Tail(evs))

(* ---------------------------------------------------------------- answers *)
Ans(k, s, d) == [k |-> k, s |-> s, d |-> d, w |-> <<>>]
List(q) == Ans("list", <<>>, q)
Num(x) == Ans("num", <<>>, <<x>>)
Larger(s) == [i \in 1..Len(s) |-> s[i] + 2]
Grid(s) == [p \in 1..Card(s) |-> Unpos(s, p - 1)]
B2I(b) == IF b THEN 1 ELSE 0
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

Expect(r) ==
  LET s == r.l.s t == r.r.s IN
  CASE r.op = "iter" -> Ans("hist", <<>>, Run(s, <<0>>, r.ev))
    [] r.op = "card" -> Num(Card(s))
    [] r.op = "contains" -> List([p \in 1..Card(Larger(s)) |-> B2I(InShape(s, Unpos(Larger(s), p - 1)))])
    [] r.op = "rank" -> List(<<Len(s), B2I(Len(s) = 0), B2I(Len(s) = 1), B2I(Len(s) = 2)>>)
    [] r.op = "isdiag" -> List([p \in 1..Card(s) |-> B2I(Diag(Unpos(s, p - 1)))])
    [] r.op = "concat" -> List(s \o t)
    [] r.op = "concat_ix" ->
         List(Flat([p \in 1..(Card(s) * Card(t)) |-> Unpos(s, (p - 1) \div Card(t)) \o Unpos(t, (p - 1) % Card(t))]))
    [] r.op = "equiv" -> Num(B2I(Card(s) = Card(t)))
    [] r.op = "split" -> Ans("split", SubSeq(s, 1, Len(s) \div 2), SubSeq(s, Len(s) \div 2 + 1, Len(s)))
    [] r.op = "split_ix" ->
         List(Flat([p \in 1..Card(s) |-> LET ix == Unpos(s, p - 1) h == Len(ix) \div 2
                                         IN SubSeq(ix, 1, h) \o <<-7>> \o SubSeq(ix, h + 1, Len(ix))]))
    [] r.op = "broadcast" -> IF Compatible(s, t) THEN Ans("buf", Broad(s, t), <<>>) ELSE Ans("err", s, t)
    [] r.op = "reverse" -> Ans("err", t, s)

(* --------------------------------------------------------------- requests *)
St == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<5>>, <<33>>, <<2, 3>>, <<3, 1>>, <<1, 3>>, <<0, 2>>, <<2, 0>>, <<1, 1>>,
       <<3, 3>>, <<4, 5>>, <<9, 2>>, <<2, 3, 1>>, <<1, 2, 3>>, <<3, 1, 2>>, <<2, 0, 2>>, <<2, 2, 2>>, <<3, 3, 3>>,
       <<2, 3, 1, 2>>, <<1, 2, 3, 2>>, <<2, 2, 2, 2>>, <<1, 0, 2, 1>>, <<3, 2, 2, 1>>,
       <<2, 3, 1, 2, 2>>, <<1, 2, 1, 3, 2>>, <<2, 2, 2, 2, 2>>, <<2, 1, 2, 0, 3>>,
       <<2, 3, 1, 2, 2, 1>>, <<1, 2, 1, 3, 2, 2>>, <<2, 2, 2, 2, 2, 2>>, <<2, 1, 0, 2, 1, 2>>}
StSplit == {<<2, 3>>, <<3, 1>>, <<0, 2>>, <<3, 3>>, <<2, 3, 1, 2>>, <<2, 2, 2, 2>>, <<1, 2, 3, 2>>}
LeftOf(n) == SubSeq(<<2, 3, 1, 2, 2>>, 1, n)
RightOf(n) == SubSeq(<<3, 2, 1, 2, 2>>, 1, n)
StJoin == {p \in (0..5) \X (0..5) : p[1] + p[2] <= 6}
Dyn == UNION {[1..n -> 0..3] : n \in 0..4} \cup [1..5 -> 0..2] \cup [1..6 -> {0, 1, 2}]
DynSmall == UNION {[1..n -> 0..2] : n \in 0..3}

Seqn(f) == [i \in 1..Len(f) |-> f[i]]
Q(op, lk, l, rk, r, ev) == [op |-> op, l |-> [k |-> lk, s |-> Seqn(l)], r |-> [k |-> rk, s |-> Seqn(r)], ev |-> ev]

(* look at every point of a whole enumeration, then read past none of it *)
Scan(s, dup) ==
  Flat([p \in 1..(Card(s) + 1) |->
         <<<<"hint", 1, 0>>>>
         \o (IF dup /\ Card(s) <= 12 THEN <<<<"clone", 1, 0>>, <<"hint", p + 1, 0>>, <<IF p % 3 = 0 THEN "last" ELSE "count", p + 1, 0>>>> ELSE <<>>)
         \o <<<<"next", 1, 0>>>>])
(* count from a position, by re-reading where the iterator cannot be cloned *)
From(s, p, op) == <<<<"fresh", 1, 0>>>> \o Flat([i \in 1..p |-> <<<<"next", 2, 0>>>>]) \o <<<<op, 2, 0>>>>

Requests(area) ==
     {Q("iter", "st", s, "st", <<>>, Scan(s, FALSE)) : s \in St}
  \cup UNION {{Q("iter", "st", s, "st", <<>>, From(s, p, op)) : p \in {p \in 0..4 : p <= Card(s)}, op \in {"count", "last", "rest"}}
              : s \in {s \in St : Card(s) <= 12}}
  \cup {Q("iter", "dyn", s, "st", <<>>, Scan(s, TRUE)) : s \in Dyn}
  \cup {Q(op, "st", s, "st", <<>>, <<>>) : op \in {"card", "contains", "rank", "isdiag"}, s \in St}
  \cup {Q(op, "dyn", s, "st", <<>>, <<>>) : op \in {"card", "contains", "rank", "isdiag"}, s \in {s \in Dyn : Len(s) <= 4 \/ 0 \notin {s[i] : i \in DOMAIN s}}}
  \cup {Q(op, "st", LeftOf(p[1]), "st", RightOf(p[2]), <<>>) : op \in {"concat", "concat_ix", "equiv"}, p \in StJoin}
  \cup {Q(op, "dyn", s, "dyn", t, <<>>) : op \in {"concat", "concat_ix", "equiv"},
          s \in {s \in DynSmall : Len(s) < 3 \/ s[1] > 0}, t \in {s \in DynSmall : Len(s) < 3 \/ s[3] > 1}}
  \cup {Q(op, "dyn", [i \in 1..n |-> ((i + n) % 2) + 1], "dyn", [i \in 1..m |-> ((i + m) % 3) + 1], <<>>) :
          op \in {"concat", "concat_ix", "equiv"}, n \in 0..6, m \in 0..6}
  \cup {Q(op, "st", s, "st", <<>>, <<>>) : op \in {"split", "split_ix"}, s \in StSplit}
  \cup {Q(op, "st", s, "st", t, <<>>) : op \in {"broadcast", "reverse"}, s \in {<<>>}, t \in St}
  \cup {Q(op, "st", s, "st", t, <<>>) : op \in {"broadcast", "reverse"}, s \in St, t \in {<<>>}}
  \cup {Q(op, "st", s, "st", s, <<>>) : op \in {"broadcast", "reverse"}, s \in St}
  \cup {Q(op, "dyn", s, "dyn", t, <<>>) : op \in {"broadcast", "reverse"}, s \in {s \in Dyn : Len(s) = 1}, t \in {s \in Dyn : Len(s) = 1}}
  \cup {Q(op, "dyn", s, "dyn", t, <<>>) : op \in {"broadcast", "reverse"}, s \in {s \in DynSmall : Len(s) = 2}, t \in {s \in DynSmall : Len(s) = 2}}
  \cup {Q(op, "dyn", s, "dyn", t, <<>>) : op \in {"broadcast", "reverse"}, s \in {s \in DynSmall : Len(s) = 3 /\ s[2] = 1}, t \in {s \in DynSmall : Len(s) = 3}}
  \cup {Q(op, "dyn", s, "st", <<>>, <<>>) : op \in {"broadcast", "reverse"}, s \in DynSmall}
  \cup {Q(op, "st", <<>>, "dyn", s, <<>>) : op \in {"broadcast", "reverse"}, s \in DynSmall}
=============================================================================

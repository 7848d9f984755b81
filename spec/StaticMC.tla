------------------------------ MODULE StaticMC ------------------------------
(***************************************************************************)
(* Grows programs over variables of every sort, one operator or one        *)
(* differentiation at a time, as long as the library's types let their     *)
(* derivative with respect to some vector or matrix be evaluated.          *)
(*                                                                         *)
(* Invariant: the tree the library's rules rewrite the derivative to       *)
(* denotes the Jacobian, except for the known shapes of defect.  The       *)
(* programs are printed; they are compiled against the library and their   *)
(* recorded results judged by Trace.tla.                                   *)
(***************************************************************************)
EXTENDS Rewrite, Json, IOUtils, SequencesExt

V(s, k) == <<"var", s \o ToString(k)>>
Consts == {<<"const", "S", <<>>, <<2>>>>, <<"const", "A", <<2>>, <<3, 7>>>>, <<"const", "M", <<2, 3>>, <<5, 0, 1, 8, 2, 9>>>>}
Leaf1 == {V(s, k) : s \in DOMAIN SortShape, k \in {0, 1}} \cup Consts
Leaf2 == {V("S", 0), V("S", 1), V("A", 0), V("A", 1), V("M", 1), V("Q", 0), V("B", 0), <<"const", "S", <<>>, <<2>>>>}
Un == {"addone", "subone", "onesub", "square", "double", "neg", "sign", "abs", "ln", "xlnx", "exp", "rabbit",
       "sigmoid", "cos", "sin", "gamma", "lgamma"}

(* a point at which nothing is special *)
Ord == [S |-> 1, A |-> 2, B |-> 3, M |-> 4, N |-> 5, Q |-> 6, R |-> 7, K |-> 8, T |-> 9, W |-> 10]
Ids == {k \o ToString(i) : k \in DOMAIN SortShape, i \in {0, 1, 5}}
Num(id) == Ord[SortOf(id)] * 3 + (CHOOSE i \in {0, 1, 5} : id = SortOf(id) \o ToString(i))
(* e memoised in a slot of its own type *)
Memo(e) == {<<"cache", k \o "8", e>> : k \in {j \in DOMAIN SortShape : VarTy(j \o "8") = RTy(e)}}
Env == [id \in Ids |-> LET s == SortShape[SortOf(id)] IN
          T(s, [p \in 1..Card(s) |-> (12 + Num(id) * Num(id) * 1117 + p * p * 401 + p * Num(id) * 77) % HALF])]

Absent == {"S5", "A5", "M5"}
Tg(e) == Vars(e) \cup Absent
Fit(e, t) == CanRw(e) /\ RTy(Rw(e, t)).ok
Fits(e) == {t \in Tg(e) : Fit(e, t)}
Worth(e) == \E t \in Vars(e) : VarTy(t).s # <<>> /\ Fit(e, t)

One == {e \in {<<u, x>> : u \in Un, x \in {V(s, 0) : s \in DOMAIN SortShape}} \cup
              {<<b, x, y>> : b \in Binaries, x \in Leaf1, y \in Leaf1} : RTy(e).ok /\ Vars(e) # {}}
Plain2(e) == \A v \in Vars(e) : v \in {"S0", "S1", "A0", "A1", "B1", "M0", "M1", "Q0"}

VARIABLES e, n
Init == n = 1 /\ e \in One
More == UNION {{<<u, f>> : u \in Un} \cup {<<b, f, y>> : b \in Binaries, y \in Leaf2} \cup {<<b, y, f>> : b \in Binaries, y \in Leaf2} :
               f \in {e} \cup (IF e[1] \in RBin THEN Memo(e) ELSE {})}
Next == \/ n = 1 /\ Plain2(e) /\ n' = 2 /\ e' \in {f \in More : RTy(f).ok /\ Worth(f)}
        \/ n \in 1..(IF IOEnv.DEPTH = "2" THEN 1 ELSE 2) /\ n' = n + 10
           /\ e' \in {f \in {<<"adj", t, e>> : t \in {u \in Fits(e) : Sound(e, u, Env)}} : Fits(f) # {}}
Spec == Init /\ [][Next]_<<e, n>>

(* all programs but those with a known defect inside *)
Correct == \A t \in Fits(e) : Known(e, t) \/ Sound(e, t, Env)

Out == LET ts == {t \in Fits(e) : Sound(e, t, Env)} IN
       IF (n > 10 \/ Worth(e)) /\ ts # {}
       THEN PrintT("P " \o ToJson([n |-> n, e |-> e, t |-> SetToSeq(ts)])) ELSE TRUE
=============================================================================

------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* Contractions of two buffers over no axis (tensor product) or one axis   *)
(* (dot product), for operands given densely or by a structural form.      *)
(***************************************************************************)
EXTENDS Tensor

Ans(k, s, d) == [k |-> k, s |-> s, d |-> d, w |-> <<>>]
Expect(r) ==
  LET A == Dense(r.a.k, r.a.s, r.a.d)
      B == Dense(r.b.k, r.b.s, r.b.d)
      C == IF r.ax = 0 THEN TProd(0, A, B) ELSE TDot(0, A, B)
  IN CASE r.op \in {"contract", "contract_fn"} -> Ans("buf", C.s, C.d)
       [] r.op \in {"spec", "spec_fn"} -> [k |-> "spec", s |-> C.s, d |-> C.d, w |-> C.s]
       [] r.op \in {"cshape", "cshape_fn"} -> Ans("list", <<>>, C.s)

(* operand shapes of the supported rank pairs *)
Pairs(ax, N) ==
  IF ax = 0
  THEN {<< <<>>, <<>> >>} \cup UNION {{<< <<n>>, <<>> >>, << <<>>, <<n>> >>} : n \in N}
       \cup UNION {{<< <<n, m>>, <<>> >>, << <<>>, <<n, m>> >>, << <<n>>, <<m>> >>} : n \in N, m \in N}
  ELSE {<< <<>>, <<>> >>} \cup {<< <<n>>, <<n>> >> : n \in N}
       \cup UNION {{<< <<n, m>>, <<m>> >>, << <<n>>, <<n, m>> >>} : n \in N, m \in N}
       \cup {<< <<n, m>>, <<m, k>> >> : n \in N, m \in N, k \in N}

Kinds == {"raw", "full", "diag"}
Of(f, N) == UNION {{[f |-> f, ax |-> ax, as |-> p[1], bs |-> p[2]] : p \in Pairs(ax, N)} : ax \in {0, 1}}
All == Of("i64", 0..3) \cup Of("f64", 1..3) \cup Of("z", 1..3)
       \cup {[f |-> "i64", ax |-> 1, as |-> <<5, 4>>, bs |-> <<4, 6>>], [f |-> "i64", ax |-> 1, as |-> <<17>>, bs |-> <<17>>],
             [f |-> "i64", ax |-> 0, as |-> <<5>>, bs |-> <<9>>], [f |-> "i64", ax |-> 0, as |-> <<9>>, bs |-> <<2>>],
             [f |-> "i64", ax |-> 0, as |-> <<17>>, bs |-> <<>>], [f |-> "i64", ax |-> 0, as |-> <<>>, bs |-> <<17>>],
             [f |-> "i64", ax |-> 0, as |-> <<4, 5>>, bs |-> <<>>], [f |-> "i64", ax |-> 0, as |-> <<>>, bs |-> <<4, 5>>],
             [f |-> "i64", ax |-> 1, as |-> <<9, 2>>, bs |-> <<2>>], [f |-> "i64", ax |-> 1, as |-> <<2, 9>>, bs |-> <<9>>],
             [f |-> "i64", ax |-> 1, as |-> <<2>>, bs |-> <<2, 9>>], [f |-> "i64", ax |-> 1, as |-> <<9>>, bs |-> <<9, 2>>],
             [f |-> "i64", ax |-> 1, as |-> <<5, 5>>, bs |-> <<5, 5>>], [f |-> "i64", ax |-> 1, as |-> <<9, 2>>, bs |-> <<2, 9>>],
             [f |-> "i64", ax |-> 1, as |-> <<2, 9>>, bs |-> <<9, 2>>]}
Rq(t, op, ak, bk) == [f |-> t.f, ax |-> t.ax, as |-> t.as, bs |-> t.bs, op |-> op, ak |-> ak, bk |-> bk]
Requests(area) ==
  {Rq(t, op, "raw", "raw") : t \in All, op \in {"contract", "contract_fn", "cshape", "cshape_fn"}}
  \cup {Rq(t, op, k, l) : t \in All, op \in {"spec", "spec_fn"}, k \in Kinds, l \in Kinds}
=============================================================================

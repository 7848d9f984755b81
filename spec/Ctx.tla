-------------------------------- MODULE Ctx --------------------------------
(***************************************************************************)
(* A context: a map from its identifiers to buffers.  A value is           *)
(* [k |-> "some", s |-> shape, d |-> entries] or Undef.                    *)
(*                                                                         *)
(* Operations:  <<"write", i, b>>   b = [k |-> "raw", s, d]                *)
(*              <<"wspec", i, b>>   b = [k |-> "raw"|"full"|"diag", s, d]  *)
(*              <<"cache", i, j>>   evaluate variable i cached under j     *)
(***************************************************************************)
EXTENDS Tensor

Undef == [k |-> "none", s |-> <<>>, d |-> <<>>]
Some(t) == [k |-> "some", s |-> t.s, d |-> t.d]
ShapeOnly(v) == [v EXCEPT !.d = <<>>]

(* the context after an operation, and the answer the operation gives *)
After(st, op) ==
  CASE op[1] \in {"write", "wspec"} -> [st EXCEPT ![op[2]] = Some(Dense(op[3].k, op[3].s, op[3].d))]
    [] op[1] = "cache" -> IF st[op[3]] = Undef THEN [st EXCEPT ![op[3]] = st[op[2]]] ELSE st
Answer(st, op) ==
  CASE op[1] \in {"write", "wspec"} -> Undef
    [] op[1] = "cache" -> IF st[op[3]] = Undef THEN st[op[2]] ELSE st[op[3]]

(* a field is declared plain or as a cache *)
Initial(caches, vals) == [i \in DOMAIN caches |-> IF caches[i] THEN Undef ELSE vals[i]]
=============================================================================

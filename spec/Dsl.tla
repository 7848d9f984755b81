-------------------------------- MODULE Dsl --------------------------------
(***************************************************************************)
(* The language of aegir!: what tree a piece of notation denotes.          *)
(*                                                                         *)
(* A chain  a1 o1 a2 o2 .. an  is a sequence of atoms separated by infix   *)
(* operators.  The operator applied last is the rightmost one of those     *)
(* that bind least (^ binds less than + and -, which bind less than * ).   *)
(*                                                                         *)
(* Atoms:  <<"v", k>>              the k-th variable                       *)
(*         <<"lit", text>>         a numeric literal                       *)
(*         <<"paren", chain>>      (chain)                                 *)
(*         <<"block", chain>>      {chain}                                 *)
(*         <<"call", atom, m, chains>>  atom.m(chains)                     *)
(*         <<"fn", f, chains>>     f(chains)                               *)
(*         <<"host", kind, chain>> the chain within other Rust notation    *)
(*         <<"let", chain, o, chain>>   {let t = chain; t o chain}         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Infix == {"+", "-", "*", "^"}
Binds == ("^" :> 1) @@ ("+" :> 2) @@ ("-" :> 2) @@ ("*" :> 3)
Named == ("^" :> "pow") @@ ("+" :> "add") @@ ("-" :> "sub") @@ ("*" :> "mul")

(* literals: type and value *)
Lits == ("2" :> <<"i64", "2">>) @@ ("2.0" :> <<"f64", "2.0">>) @@ ("3" :> <<"i64", "3">>) @@ ("3.0" :> <<"f64", "3.0">>)
        @@ ("2.5" :> <<"f64", "2.5">>) @@ ("0.5" :> <<"f64", "0.5">>) @@ ("1e3" :> <<"f64", "1000.0">>) @@ ("22" :> <<"i64", "22">>)
        @@ ("1_000" :> <<"i64", "1000">>) @@ ("20.0" :> <<"f64", "20.0">>) @@ ("0" :> <<"i64", "0">>) @@ ("1.0" :> <<"f64", "1.0">>)
        @@ ("2.00" :> <<"f64", "2.0">>) @@ ("0x2" :> <<"i64", "2">>) @@ ("12" :> <<"i64", "12">>) @@ ("2.01" :> <<"f64", "2.01">>)
        @@ ("1" :> <<"i64", "1">>) @@ ("0.0" :> <<"f64", "0.0">>) @@ ("3.0f64" :> <<"f64", "3.0">>) @@ ("7i64" :> <<"i64", "7">>) @@ ("0b11" :> <<"i64", "3">>)
        @@ ("2i64" :> <<"i64", "2">>) @@ ("2.0f64" :> <<"f64", "2.0">>) @@ ("2." :> <<"f64", "2.0">>) @@ ("20" :> <<"i64", "20">>) @@ ("1e-2" :> <<"f64", "0.01">>)
        @@ ("4" :> <<"i64", "4">>) @@ ("1_0.5_0" :> <<"f64", "10.5">>) @@ ("9007199254740993" :> <<"i64", "9007199254740993">>)

(* methods and constructors: what they build from their operands *)
Method == ("add" :> "add") @@ ("sub" :> "sub") @@ ("mul" :> "mul") @@ ("div" :> "div") @@ ("dot" :> "dot") @@ ("pow" :> "pow")
          @@ ("abs" :> "abs") @@ ("neg" :> "neg") @@ ("ln" :> "ln") @@ ("squared" :> "square") @@ ("sum" :> "sum") @@ ("sigmoid" :> "sigmoid")
Plain == ("Sin" :> "sin") @@ ("Cos" :> "cos") @@ ("Exp" :> "exp") @@ ("Gamma" :> "gamma") @@ ("Erf" :> "erf") @@ ("XLnX" :> "xlnx")
         @@ ("Double" :> "double") @@ ("Negate" :> "neg") @@ ("AddOne" :> "addone") @@ ("SubOne" :> "subone") @@ ("OneSub" :> "onesub")
         @@ ("Square" :> "square") @@ ("Dirac" :> "dirac") @@ ("Sign" :> "sign") @@ ("Rabbit" :> "rabbit") @@ ("LogGamma" :> "lgamma")
         @@ ("DiGamma" :> "digamma") @@ ("Add" :> "add") @@ ("Sub" :> "sub") @@ ("Mul" :> "mul") @@ ("Div" :> "div") @@ ("Power" :> "pow")
         @@ ("TensorProduct::new" :> "tprod") @@ ("TensorDot::new" :> "dot") @@ ("TensorDoubleDot::new" :> "ddot")
         @@ ("Tan" :> "tan") @@ ("ArcTan" :> "atan") @@ ("Tanh" :> "tanh") @@ ("Sinh" :> "sinh") @@ ("Cosh" :> "cosh")
         @@ ("ArcSin" :> "asin") @@ ("ArcCos" :> "acos") @@ ("ArcSinh" :> "asinh") @@ ("ArcCosh" :> "acosh") @@ ("ArcTanh" :> "atanh")

Last1(c) == LET ps == {p \in 1..Len(c) : p % 2 = 0}
                low == {p \in ps : \A q \in ps : Binds[c[p]] <= Binds[c[q]]}
            IN CHOOSE p \in low : \A q \in low : q <= p

BareLit(c) == Len(c) = 1 /\ c[1][1] = "lit"
(* other Rust notation that has the value of what it contains *)
Hosts == {"if", "match", "thunk", "unsafe", "tuple", "array", "repeat", "struct", "loop", "ret", "clone", "deref", "range", "try", "assign", "group"}
(* a numeric literal, directly or substituted by macro_rules *)
Two(c) == /\ Len(c) = 1
          /\ \/ c[1][1] = "lit" /\ Lits[c[1][2]][2] \in {"2", "2.0"}
             \/ c[1][1] = "host" /\ Len(c[1][3]) = 1 /\ c[1][3][1][1] = "lit" /\ Lits[c[1][3][1][2]][2] \in {"2", "2.0"}
RECURSIVE Tree(_), Atom(_)
Tree(c) ==
  IF Len(c) = 1 THEN Atom(c[1])
  ELSE LET p == Last1(c)  l == SubSeq(c, 1, p - 1)  r == SubSeq(c, p + 1, Len(c)) IN
       IF c[p] # "^" THEN <<Named[c[p]], Tree(l), Tree(r)>>
       ELSE IF BareLit(r) /\ r[1][2] \in {"2", "2.0"} THEN <<"square", Tree(l)>>
       ELSE IF Two(r) THEN <<"either", <<"square", Tree(l)>>, <<"pow", Tree(l), Tree(r)>>>>
       ELSE <<"pow", Tree(l), Tree(r)>>
Atom(a) ==
  CASE a[1] = "v" -> <<"var", a[2]>>
    [] a[1] = "lit" -> <<"lit">> \o Lits[a[2]]
    [] a[1] \in {"paren", "block"} -> Tree(a[2])
    [] a[1] = "host" -> Tree(a[3])
    [] a[1] = "let" -> Tree(<< <<"paren", a[2]>>, a[3]>> \o a[4])
    [] a[1] = "call" -> IF a[3] = "complement" THEN <<"onesub", Atom(a[2])>>
                        ELSE IF a[3] = "cached" THEN <<"cache", a[4][1][1][2], Atom(a[2])>>
                        ELSE <<Method[a[3]], Atom(a[2])>> \o [i \in 1..Len(a[4]) |-> Tree(a[4][i])]
    [] a[1] = "fn" -> IF a[2] = "Factorial::factorial" THEN <<"gamma", <<"addone", Tree(a[3][1])>>>>
                      ELSE IF a[2] = "Erfc::erfc" THEN <<"onesub", <<"erf", Tree(a[3][1])>>>>
                      ELSE <<Plain[a[2]]>> \o [i \in 1..Len(a[3]) |-> Tree(a[3][i])]

(* o is a tree the notation denotes *)
RECURSIVE Same(_, _)
Same(t, o) ==
  CASE t[1] = "either" -> Same(t[2], o) \/ Same(t[3], o)
    [] t[1] \in {"var", "lit"} -> t = o
    [] t[1] = "cache" -> o[1] = "cache" /\ Len(o) = 3 /\ o[2] = t[2] /\ Same(t[3], o[3])
    [] OTHER -> t[1] = o[1] /\ Len(t) = Len(o) /\ \A i \in 2..Len(t) : Same(t[i], o[i])

(***************************************************************************)
(* The notation to try.                                                    *)
(***************************************************************************)
V(k) == <<"v", k>>
Chains(n, At(_)) == {[p \in 1..(2 * n + 1) |-> IF p % 2 = 1 THEN At((p + 1) \div 2) ELSE f[p \div 2]] : f \in [1..n -> Infix]}
Vars(k) == V(k)
(* atoms other than variables *)
Specials == {<<"lit", l>> : l \in {"2", "2.0", "3", "3.0", "2.5", "22", "1e3", "2.00", "0", "1.0", "1", "0.0"}}
            \cup {<<"paren", c>> : c \in Chains(1, Vars)}
            \cup {<<"call", V(3), m, <<>>>> : m \in {"ln", "squared"}}
            \cup {<<"call", V(3), "sub", << <<V(1), "+", V(2)>> >>>>, <<"call", <<"paren", <<V(1), "-", V(2)>>>>, "neg", <<>>>>,
                  <<"call", V(2), "pow", << << <<"lit", "2">> >> >>>>, <<"paren", <<V(1), "^", <<"lit", "2">>>>>>,
                  <<"paren", << <<"lit", "2">> >>>>, <<"paren", <<V(2), "*", <<"lit", "2.0">>>>>>,
                  <<"block", <<V(1), "-", V(4)>>>>, <<"fn", "Sin", << <<V(1), "*", V(2)>> >>>>}
Put(c, p, a) == [c EXCEPT ![p] = a]
Every == UNION {Chains(n, Vars) : n \in 0..4}
         \cup UNION {{Put(c, p, a) : c \in Chains(n, Vars), p \in {q \in 1..(2 * n + 1) : q % 2 = 1}, a \in Specials} : n \in 0..3}
         \cup {<<a, o, b>> : o \in Infix, a \in Specials, b \in Specials}
Ops1 == {<<"call", V(1), m, <<>>>> : m \in {"abs", "neg", "ln", "squared", "sum", "sigmoid"}}
        \cup {<<"call", V(2), m, << <<V(1)>> >>>> : m \in {"add", "sub", "mul", "div", "dot", "pow"}}
        \cup {<<"call", <<"paren", <<V(2), "-", V(3)>>>>, m, << <<V(1), "+", V(2)>> >>>> : m \in {"add", "sub", "mul", "div", "dot", "pow"}}
        \cup {<<"fn", f, << <<V(1), "-", V(2)>> >>>> : f \in {g \in DOMAIN Plain : Plain[g] \notin {"add", "sub", "mul", "div", "pow", "tprod", "dot", "ddot"}}
                                                              \cup {"Factorial::factorial", "Erfc::erfc"}}
        \cup {<<"fn", f, << <<V(1), "-", V(2)>>, <<V(3)>> >>>> : f \in {g \in DOMAIN Plain : Plain[g] \in {"add", "sub", "mul", "div", "pow", "tprod", "dot", "ddot"}}}
        \cup {<<"call", <<"fn", "Erf", << <<V(2)>> >>>>, "complement", <<>>>>, <<"call", V(1), "cached", << << <<"slot", "S5">> >> >>>>,
              <<"call", <<"paren", <<V(1), "*", V(2)>>>>, "cached", << << <<"slot", "S6">> >> >>>>}
        \cup {<<"lit", l>> : l \in DOMAIN Lits}
HostAtoms == {<<"host", k, <<V(1), o, V(2)>>>> : k \in Hosts, o \in {"-", "^"}} \cup {<<"host", k, << <<"lit", "2">> >>>> : k \in Hosts}
             \cup {<<"let", <<V(1), o, V(2)>>, q, <<V(3)>>>> : o \in Infix, q \in Infix}
Hosted == {<<a>> : a \in HostAtoms} \cup {<<V(3), o, a>> : o \in Infix, a \in HostAtoms} \cup {<<a, o, V(4)>> : o \in Infix, a \in HostAtoms}
Singles == {<<a>> : a \in Ops1} \cup Hosted \cup {<<V(4), "^", <<"lit", l>>>> : l \in DOMAIN Lits} \cup {<<V(1), "-", a>> : a \in Ops1}
Requests(area) == {[e |-> c, n |-> 0] : c \in Singles} \cup {[e |-> c, n |-> Len(c) \div 2] : c \in Every}
=============================================================================

----------------------------- MODULE AttributesMC -----------------------------
(* All short histories of attributes, for all small sets of definitions and constraints. *)
EXTENDS Attributes
CONSTANTS MaxOps
VARIABLES n, was
mvars == <<avars, n, was>>
Names == {"a", "b"}
Texts == {"42", "abc", "true", "@v", "$p"}
DefSets == {<<>>} \cup {<<Def("a", t, m, c)>> : t \in {"int8", "string"}, m \in BOOLEAN, c \in {"lit", "var", "both"}}
           \cup {<<Def("a", t, m, "both"), Def("b", "bool", m2, "lit")>> : t \in {"int8", "string"}, m \in BOOLEAN, m2 \in BOOLEAN}
Simple == {[k |-> "exists", n |-> x, t |-> "", c |-> <<>>] : x \in Names} \cup {[k |-> "type", n |-> "a", t |-> "uint8", c |-> <<>>]}
Bin(o, x, y) == [k |-> o, n |-> "", t |-> "", c |-> <<x, y>>]
Neg(x) == [k |-> "not", n |-> "", t |-> "", c |-> <<x>>]
Cons1 == Simple \cup {Neg(x) : x \in Simple} \cup {Bin(o, x, y) : o \in {"and", "or", "xor"}, x \in Simple, y \in Simple}
Init == defs \in DefSets /\ cons \in {<<>>} \cup {<<c>> : c \in Cons1} /\ attrs = <<>> /\ n = 0 /\ was = <<>>
L == <<[n |-> "p", s |-> "42"]>>
Next == /\ n < MaxOps /\ n' = n + 1 /\ was' = attrs
        /\ \/ \E x \in Names, s \in Texts, ok \in BOOLEAN : Add(x, s, ok)
           \/ \E x \in Names, s \in Texts, new \in BOOLEAN, ok \in BOOLEAN : Set(x, s, new, ok)
           \/ \E ok \in BOOLEAN : Placeholders(L, ok)
Spec == Init /\ [][Next]_mvars
\* ---- what it means to be acceptable, said directly
Literal1(d, s) == d.c = "lit" \/ (d.c = "both" /\ s \notin DOMAIN VariableTexts)
Acceptable == /\ \A d \in 1..Len(defs) : defs[d].m => \E k \in 1..Len(attrs) : attrs[k].n = defs[d].n
              /\ \A d \in 1..Len(defs), k \in 1..Len(attrs) :
                   attrs[k].n = defs[d].n /\ Literal1(defs[d], attrs[k].s) => Parse(defs[d].t, attrs[k].s).ok
              /\ \A k \in 1..Len(cons) : Holds(attrs, cons[k])
ValidIsAcceptable == Valid(defs, cons, attrs) = Acceptable
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
OrderIrrelevant == SameBag(Wrong(defs, cons, attrs), Wrong(Rev(defs), Rev(cons), Rev(attrs)))
NoDuplicates == \A j, k \in 1..Len(attrs) : attrs[j].n = attrs[k].n => j = k
KeepsNames == \A k \in 1..Len(was) : k <= Len(attrs) /\ attrs[k].n = was[k].n
\* what is variable or literal, and what constraints mean
Laws == \A x \in Simple, y \in Simple :
          LET H(c) == Holds(attrs, c) IN
          /\ H(Neg(Bin("and", x, y))) = H(Bin("or", Neg(x), Neg(y)))
          /\ H(Neg(Bin("or", x, y))) = H(Bin("and", Neg(x), Neg(y)))
          /\ H(Bin("xor", x, y)) = H(Bin("and", Bin("or", x, y), Neg(Bin("and", x, y))))
          /\ H(Neg(Neg(x))) = H(x)
\* a resolved attribute of a valid set is never a parse failure
ValidResolves == Valid(defs, cons, attrs) =>
  \A k \in 1..Len(attrs) : LET d == IF HasD(defs, attrs[k].n) THEN DefOf(defs, attrs[k].n) ELSE Def(attrs[k].n, "string", FALSE, "lit") IN
    ~IsVariable(d, attrs[k].s) => Parse(d.t, attrs[k].s).ok
\* the catalog: names of attributes are not used twice
ASSUME \A t \in DOMAIN Catalog : LET D == AllDefs(t) IN \A j, k \in 1..Len(D) : D[j].n = D[k].n => j = k
ASSUME \A t \in DOMAIN Catalog : \A j \in 1..Len(Catalog[t].d) : Catalog[t].d[j].c = "var" => Catalog[t].d[j].t = "string"
===============================================================================

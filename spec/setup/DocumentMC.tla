------------------------------ MODULE DocumentMC ------------------------------
(***************************************************************************)
(* All small systems of documents, built element by element. What Document *)
(* says about them is compared with other ways to say it.                  *)
(***************************************************************************)
EXTENDS Document
CONSTANTS Mode, MaxNodes, Files, Small   \* "include" or "content"; number of elements; files besides "m"; fewer kinds of elements
VARIABLES S, count
vars == <<S, count, avars>>
At(n, s) == [n |-> n, s |-> s]
Attr(n, s) == IF s = "-" THEN <<>> ELSE <<At(n, s)>>
Leaf(t, a) == [t |-> t, a |-> a, c |-> <<>>]
IncludeKinds ==
  {Leaf("Sequence", <<At("name", "a")>>), Leaf("Inverter", <<>>)}
  \union {Leaf("Succeed", <<At("name", "b")>> \o Attr("other", o)) : o \in {"-", "$p"}}
  \union {Leaf("Include", Attr("file", f) \o <<At("path", x)>> \o Attr("p", p)) : f \in {"-"} \union Files, x \in IF Small THEN {"", "a"} ELSE {"", "a", "b"}, p \in IF Small THEN {"-", "$p"} ELSE {"-", "1", "$p"}}
  \union {Leaf("IncludeProcedure", <<At("file", f), At("path", "a")>>) : f \in Files}
ContentKinds ==
  {Leaf("Sequence", Attr("isRoot", r)) : r \in {"-", "true", "off"}}
  \union {Leaf("Succeed", <<At("name", "a"), At("isRoot", "true")>>), Leaf("Repeat", <<At("maxCount", "abc")>>), Leaf("Wait", <<At("timeout", "1.5")>>)}
Kinds == IF Mode = "include" THEN IncludeKinds ELSE ContentKinds
VarKinds == {<<At("name", n)>> \o Attr("type", t) \o Attr("value", v) : n \in {"v", "w"}, t \in {"-", "T:int", "T:p1", "T:usep"}, v \in {"-", "42"}}
TypeKinds == {[k |-> k, s |-> s] : k \in {"text"}, s \in {"T:p1", "T:p2", "T:usep", "T:bad"}} \union {[k |-> "file", s |-> s] : s \in {"t", "none"}}
Init == /\ S = [main |-> "m", dir |-> "", p |-> NoProc, files |-> [f \in Files |-> [ok |-> TRUE, dir |-> "", x |-> Write(NoProc)]], tfiles |-> [f \in {"t"} |-> "T:p1"]]
        /\ count = 0 /\ defs = <<>> /\ cons = <<>> /\ attrs = <<>>
P(f) == ProcOf(S, f)
SetP(f, p) == S' = IF f = "m" THEN [S EXCEPT !.p = p] ELSE [S EXCEPT !.files[f].x = Write(p)]
\* all trees with one more leaf k
RECURSIVE Grow(_, _)
Grow(n, k) ==
  (IF Catalog[n.t].kids = "none" \/ (Catalog[n.t].kids = "one" /\ n.c # <<>>) \/ n.t \in Includes THEN {} ELSE {[n EXCEPT !.c = Append(@, k)]})
  \union UNION {{[n EXCEPT !.c[j] = m] : m \in Grow(n.c[j], k)} : j \in 1..Len(n.c)}
AddNode == \E f \in {"m"} \union Files, k \in Kinds :
  LET p == P(f) IN
  \/ Len(p.tops) < 2 /\ SetP(f, [p EXCEPT !.tops = Append(@, k)])
  \/ \E j \in 1..Len(p.tops) : \E m \in Grow(p.tops[j], k) : SetP(f, [p EXCEPT !.tops[j] = m])
AddVarOrType == /\ Mode = "content"
                /\ \/ \E a \in VarKinds : (\A k \in 1..Len(S.p.vars) : S.p.vars[k].n # TextOf(a, "name"))
                                          /\ SetP("m", [S.p EXCEPT !.vars = Append(@, [n |-> TextOf(a, "name"), t |-> "Local", a |-> a])])
                   \/ \E t \in TypeKinds : SetP("m", [S.p EXCEPT !.types = Append(@, t)])
                   \/ S.p.plugins = <<>> /\ SetP("m", [S.p EXCEPT !.plugins = <<"libm.so.6">>])
                   \/ S.p.a = <<>> /\ \E s \in {"1.5", "abc"} : SetP("m", [S.p EXCEPT !.a = <<At("tickTimeout", s)>>])
Next == count < MaxNodes /\ count' = count + 1 /\ (AddNode \/ AddVarOrType) /\ UNCHANGED avars
Spec == Init /\ [][Next]_vars

\* ---- writing and reading are inverse
RoundTrip == ReadOK(Write(S.p)) /\ Read(Write(S.p)) = S.p
\* wherever preamble and workspace stand, and in whatever pieces
Rearranged(x) == [x EXCEPT !.c = Keep(x.c, LAMBDA e : e.t = "Workspace") \o Keep(x.c, LAMBDA e : e.t \notin SectionNames)
                                 \o Keep(x.c, LAMBDA e : e.t = "Plugin") \o Keep(x.c, LAMBDA e : e.t = "RegisterType")]
Anywhere == Read(Rearranged(Write(S.p))) = S.p

\* ---- the root: the only one, or the first one marked
RootRight ==
  LET T == S.p.tops  r == RootOf(T)  marked == {k \in 1..Len(T) : TextOf(T[k].a, "isRoot") \in TrueTexts} IN
  /\ (r # 0) = (Len(T) = 1 \/ marked # {})
  /\ r # 0 => (r \in marked /\ \A k \in marked : r <= k) \/ (Len(T) = 1 /\ r = 1)

\* ---- setting up by substitution and a check for recursion is the same as evaluating the included trees where they
\* are, in the environment of the parameters of the include, with a bound on the depth
RECURSIVE Eval(_, _, _, _, _)
EvalAttrs(n, top, L) == IF top THEN n.a
                        ELSE [k \in 1..Len(n.a) |-> IF n.a[k].s \in DOMAIN PlaceholderTexts THEN At(n.a[k].n, TextOf(L, PlaceholderTexts[n.a[k].s])) ELSE n.a[k]]
                             \o (IF n.t \in Includes THEN Keep(L, LAMBDA x : x.n \notin {"name", "isRoot", "showCollapsed", "path", "file"} /\ ~HasA(n.a, x.n)) ELSE <<>>)
RECURSIVE NoHoles(_, _)
NoHoles(n, L) == (\A k \in 1..Len(n.a) : n.a[k].s = "$p" => HasA(L, "p")) /\ \A k \in 1..Len(n.c) : NoHoles(n.c[k], L)
Eval(f, n, top, L, fuel) ==
  IF fuel = 0 THEN Broken
  ELSE LET a == TLCEval(EvalAttrs(n, top, L)) IN
       IF n.t \in Includes
       THEN LET g == IF HasA(a, "file") THEN TextOf(a, "file") ELSE f
                q == TLCEval(P(g))
                path == TextOf(a, "path")
                hits == {k \in 1..Len(q.tops) : TextOf(q.tops[k].a, "name") = path}
                src == IF path = "" THEN RootOf(q.tops) ELSE IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A j \in hits : k <= j IN
            IF src = 0 THEN Broken
            ELSE IF ~NoHoles(q.tops[src], a) THEN Broken
            ELSE LET r == TLCEval(Eval(g, q.tops[src], FALSE, a, fuel - 1)) IN TLCEval([ok |-> r.ok, n |-> [t |-> n.t, a |-> a, c |-> <<r.n>>]])
       ELSE IF Catalog[n.t].kids # "none" /\ n.c = <<>> THEN Broken
       ELSE LET r == TLCEval([k \in 1..Len(n.c) |-> Eval(f, n.c[k], top, L, fuel)]) IN
            TLCEval([ok |-> \A k \in 1..Len(n.c) : r[k].ok, n |-> [t |-> n.t, a |-> a, c |-> [k \in 1..Len(n.c) |-> r[k].n]]])
Fuel == 2 * MaxNodes + 3
IncludeInPlace ==
  Mode = "include" =>
    LET r == TLCEval(Setup(S)) IN
    IF S.p.tops = <<>> \/ RootOf(S.p.tops) = 0 THEN ~r.ok
    ELSE LET e == Eval("m", S.p.tops[RootOf(S.p.tops)], TRUE, <<>>, Fuel) IN r.ok = e.ok /\ (r.ok => r.n = e.n)

\* ---- the description
RECURSIVE Size(_), SumSizes(_)
SumSizes(c) == IF c = <<>> THEN 0 ELSE Size(Head(c)) + SumSizes(Tail(c))
Size(n) == 1 + SumSizes(n.c)
Description ==
  LET r == TLCEval(Setup(S)) IN
  r.ok => LET I == Instructions(r.n)  kids == Concat([k \in 1..Len(I) |-> I[k].c]) IN
          /\ Len(I) = Size(r.n)
          /\ kids = [k \in 1..(Len(I) - 1) |-> k]     \* every one but the root is the child of one, in the order of the indices
          /\ \A k \in 1..Len(I) : \A j \in 1..Len(I[k].c) : I[k].c[j] > k - 1
          /\ InfoVOK(InfoV(Describe(S.p, "m", r.n)))
\* ---- adding a variable of any kind or a type never makes a broken system right
Valued == LET r == TLCEval(Setup(S)) IN r.ok => \A k \in 1..Len(S.p.vars) : VarOK(Types(S.tfiles, "", S.p).reg, S.p.vars[k])
\* what can happen, does (checked by the counts that TLC prints)
SomeSetup == Setup(S).ok
===============================================================================

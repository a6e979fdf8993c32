------------------------------- MODULE Document -------------------------------
(***************************************************************************)
(* Documents, the procedures they describe, and what setting up makes of   *)
(* them.                                                                   *)
(*   element    [t, a, x, c]: name, attributes [n, s], text, children      *)
(*   procedure  [a, types, plugins, tops, vars]; types: [k, s] (k "text"   *)
(*              or "file"), tops: instructions, vars: [n, t, a]            *)
(*   instruction [t, a, c]: type, attributes, children                     *)
(*   files      path -> [ok, x, dir]: readable as an element x, the        *)
(*              directory as it is put before relative names               *)
(*   tfiles     path -> what the file says as a type                       *)
(***************************************************************************)
EXTENDS Attributes
IsInstr(t) == t \in DOMAIN Catalog
SectionNames == {"Workspace", "Plugin", "RegisterType"}
NoProc == [a |-> <<>>, types |-> <<>>, plugins |-> <<>>, tops |-> <<>>, vars |-> <<>>]
Keep(s, P(_)) == SeqOf(LAMBDA k : P(s[k]), LAMBDA k : s[k], Len(s))
Map(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(***************************************************************************)
(* Reading and writing                                                     *)
(***************************************************************************)
GoodPlugins == {"libm.so.6", "libdl.so.2"}
RECURSIVE NodeOK(_), Node(_), Element(_)
NodeOK(x) == /\ IsInstr(x.t)
             /\ Catalog[x.t].kids = "none" => x.c = <<>>
             /\ Catalog[x.t].kids = "one" => Len(x.c) <= 1
             /\ \A k \in 1..Len(x.c) : NodeOK(x.c[k])
Node(x) == [t |-> x.t, a |-> x.a, c |-> [k \in 1..Len(x.c) |-> Node(x.c[k])]]
Element(n) == [t |-> n.t, a |-> n.a, x |-> "", c |-> [k \in 1..Len(n.c) |-> Element(n.c[k])]]
VarElements(x) == Concat([k \in 1..Len(x.c) |-> IF x.c[k].t = "Workspace" THEN x.c[k].c ELSE <<>>])
ReadOK(x) ==
  /\ x.t = "Procedure"
  /\ \A k \in 1..Len(x.c) :
       CASE x.c[k].t = "Workspace" -> TRUE
         [] x.c[k].t = "Plugin" -> x.c[k].x \in GoodPlugins
         [] x.c[k].t = "RegisterType" -> HasA(x.c[k].a, "jsontype") # HasA(x.c[k].a, "jsonfile")
         [] OTHER -> NodeOK(x.c[k])
  /\ LET V == VarElements(x) IN
     \A k \in 1..Len(V) : /\ V[k].t \in DOMAIN VarCatalog
                          /\ TextOf(V[k].a, "name") # ""
                          /\ \A j \in 1..(k - 1) : TextOf(V[j].a, "name") # TextOf(V[k].a, "name")
Read(x) ==
  [a |-> x.a,
   types |-> Map(Keep(x.c, LAMBDA e : e.t = "RegisterType"),
                 LAMBDA e : IF HasA(e.a, "jsontype") THEN [k |-> "text", s |-> TextOf(e.a, "jsontype")] ELSE [k |-> "file", s |-> TextOf(e.a, "jsonfile")]),
   plugins |-> Map(Keep(x.c, LAMBDA e : e.t = "Plugin"), LAMBDA e : e.x),
   tops |-> Map(Keep(x.c, LAMBDA e : e.t \notin SectionNames), Node),
   vars |-> Map(VarElements(x), LAMBDA e : [n |-> TextOf(e.a, "name"), t |-> e.t, a |-> e.a])]
Elem(t, a, x, c) == [t |-> t, a |-> a, x |-> x, c |-> c]
\* a variable is written with the name by which the workspace knows it
Named(v) == IF HasA(v.a, "name") THEN Put(v.a, "name", v.n) ELSE Append(v.a, [n |-> "name", s |-> v.n])
Write(p) ==
  Elem("Procedure", p.a, "",
       Map(p.types, LAMBDA r : Elem("RegisterType", <<[n |-> IF r.k = "text" THEN "jsontype" ELSE "jsonfile", s |-> r.s]>>, "", <<>>))
       \o Map(p.plugins, LAMBDA s : Elem("Plugin", <<>>, s, <<>>))
       \o Map(p.tops, Element)
       \o <<Elem("Workspace", <<>>, "", Map(p.vars, LAMBDA v : Elem(v.t, Named(v), "", <<>>)))>>)

(***************************************************************************)
(* The instruction that is executed: 0, there is none                      *)
(***************************************************************************)
Marked(n) == Parse("bool", TextOf(n.a, "isRoot")).v = BoolV(TRUE)
RootOf(tops) == IF tops = <<>> THEN 0 ELSE IF Len(tops) = 1 THEN 1
                ELSE IF \E k \in 1..Len(tops) : Marked(tops[k])
                     THEN CHOOSE k \in 1..Len(tops) : Marked(tops[k]) /\ \A j \in 1..(k - 1) : ~Marked(tops[j])
                     ELSE 0

(***************************************************************************)
(* Types and variables. Texts that are types are written as names here:    *)
(* what they say is in the tables.                                         *)
(***************************************************************************)
TypeTexts == [s \in {"T:int", "T:str", "T:bool", "T:p1", "T:p2", "T:q", "T:usep", "T:reads", "T:bad", "T:none"} |->
  CASE s = "T:int" -> [name |-> "int32", def |-> "int32", needs |-> {}]
    [] s = "T:str" -> [name |-> "string", def |-> "string", needs |-> {}]
    [] s = "T:bool" -> [name |-> "bool", def |-> "bool", needs |-> {}]
    [] s = "T:p1" -> [name |-> "p", def |-> "int", needs |-> {}]
    [] s = "T:p2" -> [name |-> "p", def |-> "text", needs |-> {}]
    [] s = "T:q" -> [name |-> "q", def |-> "int", needs |-> {}]
    [] s = "T:usep" -> [name |-> "u", def |-> "", needs |-> {"p"}]       \* a structure with a p in it
    [] s = "T:reads" -> [name |-> "p", def |-> "", needs |-> {"p"}]      \* just the name p
    [] s = "T:bad" -> [name |-> "", def |-> "", needs |-> {"nothing"}]
    [] OTHER -> [name |-> "", def |-> "", needs |-> {"nosuch"}]]
\* what a text means given the registered types: [ok, name, def]
TypeOf(reg, s) ==
  IF s \notin DOMAIN TypeTexts THEN [ok |-> FALSE, name |-> "", def |-> ""]
  ELSE LET r == TypeTexts[s] IN
       [ok |-> r.needs \subseteq DOMAIN reg, name |-> r.name,
        def |-> IF r.needs \subseteq DOMAIN reg /\ r.needs # {} THEN r.def \o "p" \o reg["p"] ELSE r.def]
\* the p of "T:reads" is the registered one
DefOfType(reg, s) == LET r == TypeOf(reg, s) IN IF s = "T:reads" /\ r.ok THEN [r EXCEPT !.def = reg["p"]] ELSE r
Builtin == {"int32", "string", "bool"}
\* texts that are values, and of what
Ints == {"0", "1", "2", "-1", "42", "127", "128", "255", "300", "70000", "1.5", "-0.25"}  \* fractions are cut off
ValueOK(d, s) ==
  CASE d.name = "int32" -> s \in Ints
    [] d.name = "bool" -> s \in {"true", "false"} \union Ints   \* numbers are taken for truth values, too
    [] d.name = "string" -> s = "V:str"
    [] d.name = "p" -> s = (IF d.def = "int" THEN "V:p1" ELSE "V:p2")
    [] d.name = "q" -> s = "V:p1"
    [] OTHER -> FALSE
VarOK(reg, v) == /\ Valid(AllVarDefs(v.t), VarCatalog[v.t].c, v.a)
                 /\ (v.t = "Local" /\ HasA(v.a, "type")) =>
                      LET d == DefOfType(reg, TextOf(v.a, "type")) IN
                      d.ok /\ (HasA(v.a, "value") => ValueOK(d, TextOf(v.a, "value")))

(***************************************************************************)
(* Setting up                                                              *)
(***************************************************************************)
AbsoluteTexts == {"/none.xml", "/none.json"}
Resolve(dir, s) == IF s = "" \/ s \in AbsoluteTexts THEN s ELSE dir \o s
Registered(reg, name, def) == [k \in DOMAIN reg \union {name} |-> IF k = name THEN def ELSE reg[k]]
EmptyReg == [k \in {} |-> ""]
\* [ok, reg]: the types that p registers, p being a procedure of a file in dir
Types(tfiles, dir, p) ==
  LET F[k \in 0..Len(p.types)] ==
        IF k = 0 THEN [ok |-> TRUE, reg |-> EmptyReg]
        ELSE IF ~F[k - 1].ok THEN F[k - 1]
        ELSE LET r == p.types[k]
                 path == Resolve(dir, r.s)
                 s == IF r.k = "text" THEN r.s ELSE IF path \in DOMAIN tfiles THEN tfiles[path] ELSE "T:bad"
                 d == DefOfType(F[k - 1].reg, s) IN
             IF ~d.ok THEN [ok |-> FALSE, reg |-> EmptyReg]
             ELSE IF d.name \in Builtin THEN F[k - 1]
             ELSE IF d.name \in DOMAIN F[k - 1].reg THEN [ok |-> F[k - 1].reg[d.name] = d.def, reg |-> F[k - 1].reg]
             ELSE [ok |-> TRUE, reg |-> Registered(F[k - 1].reg, d.name, d.def)]
  IN F[Len(p.types)]
VarsOK(tfiles, dir, p) == LET T == Types(tfiles, dir, p) IN T.ok /\ \A k \in 1..Len(p.vars) : VarOK(T.reg, p.vars[k])

\* the parts of a path; a part is a name of an instruction
PartNames == {"a", "b", "c", "i", "j", ""}
Paths == {<<x, y>> : x, y \in PartNames} \union {<<x, y, z>> : x, y, z \in PartNames}
PathText(w) == IF Len(w) = 2 THEN w[1] \o "." \o w[2] ELSE w[1] \o "." \o w[2] \o "." \o w[3]
PathTable == [s \in {PathText(w) : w \in Paths} |-> CHOOSE w \in Paths : PathText(w) = s]
\* a path that ends with a dot means the instruction before it
PathParts(s) == IF s \in DOMAIN PathTable
                THEN LET w == PathTable[s] IN IF w[Len(w)] = "" THEN SubSeq(w, 1, Len(w) - 1) ELSE w
                ELSE CASE s = "1.5" -> <<"1", "5">> [] s = "-0.25" -> <<"-0", "25">> [] OTHER -> <<s>>
NoNode == [t |-> "", a |-> <<>>, c |-> <<>>]
RECURSIVE Find(_, _)
Find(nodes, names) ==
  IF \E k \in 1..Len(nodes) : TextOf(nodes[k].a, "name") = Head(names)
  THEN LET k == CHOOSE k \in 1..Len(nodes) : TextOf(nodes[k].a, "name") = Head(names) /\ \A j \in 1..(k - 1) : TextOf(nodes[j].a, "name") # Head(names) IN
       IF Tail(names) = <<>> THEN nodes[k] ELSE Find(nodes[k].c, Tail(names))
  ELSE NoNode
Includes == {"Include", "IncludeProcedure"}
Own(t) == {AllDefs(t)[k].n : k \in 1..Len(AllDefs(t))}
\* the parameters L of an include in the included tree; parameters of its own reach includes in it
PlaceholdersOK(A, L) == \A k \in 1..Len(A) : A[k].s \in DOMAIN PlaceholderTexts => HasA(L, PlaceholderTexts[A[k].s])
RECURSIVE FillOK(_, _), FillTree(_, _)
FillOK(n, L) == PlaceholdersOK(n.a, L) /\ \A k \in 1..Len(n.c) : FillOK(n.c[k], L)
FillTree(n, L) ==
  LET a == Fill(n.a, L)
      more == IF n.t \in Includes THEN Keep(L, LAMBDA x : x.n \notin Own(n.t) /\ ~HasA(a, x.n)) ELSE <<>> IN
  [t |-> n.t, a |-> a \o more, c |-> [k \in 1..Len(n.c) |-> FillTree(n.c[k], L)]]

\* A system is what there is: the procedure p from the file called main in dir, and files and tfiles.
DirOf(S, f) == IF f = S.main THEN S.dir ELSE S.files[f].dir
\* a file that can be used: the main one or one that reads as a procedure and whose types are right
Loads(S, f) == f = S.main \/ (f \in DOMAIN S.files /\ S.files[f].ok /\ ReadOK(S.files[f].x) /\ Types(S.tfiles, S.files[f].dir, Read(S.files[f].x)).ok)
ProcOf(S, f) == IF f = S.main THEN S.p ELSE Read(S.files[f].x)
Broken == [ok |-> FALSE, n |-> NoNode]
ProcDefs == <<Def("tickTimeout", "float64", FALSE, "lit"), Def("timingAccuracy", "float64", FALSE, "lit")>>
RECURSIVE SetupNode(_, _, _, _), SetupSome(_, _, _, _, _)
\* children one after the other, up to one that fails
SetupSome(S, f, c, active, done) ==
  IF c = <<>> THEN [ok |-> TRUE, c |-> done]
  ELSE LET r == TLCEval(SetupNode(S, f, Head(c), active)) IN
       IF r.ok THEN SetupSome(S, f, Tail(c), active, Append(done, r.n)) ELSE [ok |-> FALSE, c |-> <<>>]
SetupKids(S, f, n, active) ==
  LET r == TLCEval(SetupSome(S, f, n.c, active, <<>>)) IN
  IF r.ok THEN [ok |-> TRUE, n |-> [n EXCEPT !.c = r.c]] ELSE Broken
SetupInclude(S, f, n, active) ==
  LET g == IF n.t = "Include" /\ ~HasA(n.a, "file") THEN f ELSE Resolve(DirOf(S, f), TextOf(n.a, "file"))
      path == TextOf(n.a, "path")
      key == <<g, path, n.a>> IN
  IF key \in active \/ ~Loads(S, g) THEN Broken
  ELSE LET q == TLCEval(ProcOf(S, g))
           src == IF path = "" THEN (IF RootOf(q.tops) = 0 THEN NoNode ELSE q.tops[RootOf(q.tops)]) ELSE Find(q.tops, PathParts(path)) IN
       IF src = NoNode THEN Broken
       ELSE IF ~FillOK(src, n.a) \/ (n.t = "IncludeProcedure" /\ ~VarsOK(S.tfiles, DirOf(S, g), q)) THEN Broken
       ELSE LET r == TLCEval(SetupNode(S, g, TLCEval(FillTree(src, n.a)), TLCEval(active \union {key}))) IN TLCEval([ok |-> r.ok, n |-> [n EXCEPT !.c = <<r.n>>]])
SetupNode(S, f, n, active) ==
  IF ~Valid(AllDefs(n.t), Catalog[n.t].c, n.a) THEN Broken
  ELSE CASE n.t \in Includes -> SetupInclude(S, f, n, active)
         [] n.t \in {"CopyFromProcedure", "CopyToProcedure"} ->
              LET g == Resolve(DirOf(S, f), TextOf(n.a, "file")) IN
              [ok |-> Loads(S, g) /\ VarsOK(S.tfiles, DirOf(S, g), ProcOf(S, g)), n |-> n]
         \* how exactly to wait is up to the procedure of the file in which the instruction is
         [] n.t = "Wait" -> [ok |-> Valid(<<ProcDefs[2]>>, <<>>, ProcOf(S, f).a), n |-> n]
         [] OTHER -> IF (Catalog[n.t].kids = "one" /\ Len(n.c) # 1) \/ (Catalog[n.t].kids = "many" /\ n.c = <<>>) THEN Broken
                     ELSE SetupKids(S, f, n, active)
\* [ok, n]: n is the tree that is executed
Setup(S) ==
  IF ~Valid(ProcDefs, <<>>, S.p.a) \/ ~VarsOK(S.tfiles, S.dir, S.p) \/ RootOf(S.p.tops) = 0 THEN Broken
  ELSE SetupNode(S, S.main, S.p.tops[RootOf(S.p.tops)], {})

(***************************************************************************)
(* The description of a job: instructions by index, level by level, with   *)
(* the indices of their children, and variables by index.                  *)
(***************************************************************************)
RECURSIVE Levels(_, _)
Levels(queue, next) ==
  IF queue = <<>> THEN <<>>
  ELSE LET n == Head(queue) IN
       <<[t |-> n.t, cat |-> Catalog[n.t].kids, a |-> n.a, c |-> [k \in 1..Len(n.c) |-> next + k - 1]]>>
       \o Levels(Tail(queue) \o n.c, next + Len(n.c))
Instructions(n) == Levels(<<n>>, 1)
ProcName(p, main) == IF HasA(p.a, "name") THEN TextOf(p.a, "name") ELSE main
Describe(p, main, n) == [name |-> ProcName(p, main), vars |-> p.vars, instr |-> Instructions(n)]

\* ---- the same as a value that can be sent
S1(name, names, parts) == [EmptyV EXCEPT !.t = "struct", !.s = name, !.n = names, !.m = parts]
AttrsV(a) == S1("", [k \in 1..Len(a) |-> a[k].n], [k \in 1..Len(a) |-> Str(a[k].s)])
CatV(k) == IntV("uint32", CASE k = "none" -> 0 [] k = "one" -> 1 [] OTHER -> 2)
ChildName(k) == "child_" \o ToString(k - 1)
RECURSIVE InstrV(_, _)
InstrV(I, i) ==
  LET x == I[i + 1]
      base == <<Str(x.t), CatV(x.cat), IntV("uint32", i), AttrsV(x.a)>>
      names == <<"type", "category", "index", "attributes">> IN
  IF x.c = <<>> THEN S1("sup::instructionNodeInfoType/v1.0", names, base)
  ELSE S1("sup::instructionNodeInfoType/v1.0", Append(names, "children"),
          Append(base, S1("", [k \in 1..Len(x.c) |-> ChildName(k)], [k \in 1..Len(x.c) |-> InstrV(I, x.c[k])])))
VarV(v, i) == S1("sup::variableInfoType/v1.0", <<"type", "index", "attributes">>, <<Str(v.t), IntV("uint32", i), AttrsV(v.a)>>)
InfoV(d) == S1("sup::jobInfoType/v1.0", <<"full_name", "ws_info", "instr_tree_info">>,
               <<Str(d.name), S1("", [k \in 1..Len(d.vars) |-> d.vars[k].n], [k \in 1..Len(d.vars) |-> VarV(d.vars[k], k - 1)]), InstrV(d.instr, 0)>>)
\* Which values are descriptions, and of what.
HasM(v, n) == v.t = "struct" /\ \E k \in 1..Len(v.n) : v.n[k] = n
Mem(v, n) == v.m[CHOOSE k \in 1..Len(v.n) : v.n[k] = n]
AttrsOK(v) == HasM(v, "attributes") /\ Mem(v, "attributes").t = "struct" /\ \A k \in 1..Len(Mem(v, "attributes").m) : Mem(v, "attributes").m[k].t = "string"
HasT(v, n, t) == HasM(v, n) /\ Mem(v, n).t = t
RECURSIVE InstrVOK(_), Nodes(_)
KidsV(v) == IF HasM(v, "children") THEN Mem(v, "children").m ELSE <<>>
InstrVOK(v) ==
  /\ HasT(v, "type", "string") /\ HasT(v, "category", "uint32") /\ HasT(v, "index", "uint32") /\ AttrsOK(v)
  /\ HasM(v, "children") => LET c == Mem(v, "children") IN
       /\ c.t = "struct" /\ \A k \in 1..Len(c.n) : c.n[k] = ChildName(k) /\ InstrVOK(c.m[k])
       /\ CASE Mem(v, "category").x = 0 -> c.n = <<>>
            [] Mem(v, "category").x = 4 -> Len(c.n) <= 1
            [] Mem(v, "category").x = 8 -> TRUE
            [] OTHER -> c.n = <<>>
Nodes(v) == <<v>> \o Concat([k \in 1..Len(KidsV(v)) |-> Nodes(KidsV(v)[k])])
VarVOK(v, i) == HasT(v, "type", "string") /\ Mem(v, "type").s # "" /\ HasT(v, "index", "uint32") /\ Mem(v, "index").x = 4 * i /\ AttrsOK(v)
TreeVOK(i) == InstrVOK(i) /\ LET N == Nodes(i) IN {Mem(N[k], "index").x : k \in 1..Len(N)} = {4 * k : k \in 0..(Len(N) - 1)}
InfoVOK(v) ==
  /\ HasT(v, "full_name", "string") /\ HasM(v, "ws_info") /\ HasM(v, "instr_tree_info")
  /\ LET w == Mem(v, "ws_info") IN w.t = "struct" /\ \A k \in 1..Len(w.n) : VarVOK(w.m[k], k - 1)
  /\ TreeVOK(Mem(v, "instr_tree_info"))
===============================================================================

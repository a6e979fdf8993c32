----------------------------- MODULE Attributes ------------------------------
(***************************************************************************)
(* Attributes of instructions and variables: their definitions, the        *)
(* constraints on them, the texts that were given and what they mean.      *)
(*   definition  [n, t, m, c]: name, type, mandatory, category: "lit",     *)
(*               "var" or "both" (a text that starts with @ is a variable) *)
(*   constraint  [k |-> "exists", n] [k |-> "type", n, t]                  *)
(*               [k |-> "and"/"or"/"xor"/"not", c] c: parts                *)
(*   attribute   [n, s]: name and text                                     *)
(***************************************************************************)
EXTENDS Memory, FiniteSets, TLC
VARIABLES defs, cons, attrs
avars == <<defs, cons, attrs>>
Def(n, t, m, c) == [n |-> n, t |-> t, m |-> m, c |-> c]

\* ---- what texts mean. The texts that occur, those that are numbers with their value (times 4)
NumberTexts == [x \in {"0", "1", "2", "-1", "42", "127", "128", "255", "300", "70000", "1.5", "-0.25"} |->
                 CASE x = "0" -> 0 [] x = "1" -> 4 [] x = "2" -> 8 [] x = "-1" -> 0 - 4 [] x = "42" -> 168 [] x = "127" -> 508 [] x = "128" -> 512 [] x = "255" -> 1020
                   [] x = "300" -> 1200 [] x = "70000" -> 280000 [] x = "1.5" -> 6 [] OTHER -> 0 - 1]
TrueTexts == {"true", "TRUE", "True", "yes", "YES", "on", "oN"}
\* [ok, v]: the value of a text as type t
Parse(t, s) ==
  CASE t = "bool" -> Done(BoolV(s \in TrueTexts))
    [] t = "string" -> Done(Str(s))
    [] OTHER -> IF s \notin DOMAIN NumberTexts THEN Fail(EmptyV)
                ELSE Conv(Num(t, 0), Num("float64", NumberTexts[s]))
VariableTexts == [x \in {"@v", "@s", "@none", "@"} |-> CASE x = "@v" -> "v" [] x = "@s" -> "s" [] x = "@none" -> "none" [] OTHER -> ""]
PlaceholderTexts == [x \in {"$p", "$q", "$"} |-> CASE x = "$p" -> "p" [] x = "$q" -> "q" [] OTHER -> ""]

HasA(A, n) == \E k \in 1..Len(A) : A[k].n = n
TextOf(A, n) == IF HasA(A, n) THEN A[CHOOSE k \in 1..Len(A) : A[k].n = n].s ELSE ""
HasD(D, n) == \E k \in 1..Len(D) : D[k].n = n
DefOf(D, n) == D[CHOOSE k \in 1..Len(D) : D[k].n = n]
IsVariable(d, s) == d.c = "var" \/ (d.c = "both" /\ s \in DOMAIN VariableTexts)

\* ---- constraints
RECURSIVE Holds(_, _), Repr(_)
Holds(A, c) ==
  CASE c.k = "exists" -> HasA(A, c.n)
    [] c.k = "type" -> HasA(A, c.n) /\ Parse(c.t, TextOf(A, c.n)).ok
    [] c.k = "and" -> Holds(A, c.c[1]) /\ Holds(A, c.c[2])
    [] c.k = "or" -> Holds(A, c.c[1]) \/ Holds(A, c.c[2])
    [] c.k = "xor" -> Holds(A, c.c[1]) # Holds(A, c.c[2])
    [] OTHER -> ~Holds(A, c.c[1])
TypeRepr(n, t) == "Type of (" \o n \o ") must be ({\"type\":\"" \o t \o "\"})"
Repr(c) ==
  CASE c.k = "exists" -> "Exists(" \o c.n \o ")"
    [] c.k = "type" -> TypeRepr(c.n, c.t)
    [] c.k = "and" -> "(" \o Repr(c.c[1]) \o ") AND (" \o Repr(c.c[2]) \o ")"
    [] c.k = "or" -> "(" \o Repr(c.c[1]) \o ") OR (" \o Repr(c.c[2]) \o ")"
    [] c.k = "xor" -> "(" \o Repr(c.c[1]) \o ") XOR (" \o Repr(c.c[2]) \o ")"
    [] OTHER -> "Not (" \o Repr(c.c[1]) \o ")"

\* ---- everything that is wrong with attributes A
SeqOf(P(_), R(_), n) ==   \* R(k) for the k in 1..n with P(k), in order
  LET F[k \in 0..n] == IF k = 0 THEN <<>> ELSE IF P(k) THEN Append(F[k - 1], R(k)) ELSE F[k - 1] IN F[n]
Wrong(D, C, A) ==
  SeqOf(LAMBDA k : D[k].m /\ ~HasA(A, D[k].n), LAMBDA k : "Exists(" \o D[k].n \o ")", Len(D))
  \o SeqOf(LAMBDA k : HasD(D, A[k].n) /\ ~IsVariable(DefOf(D, A[k].n), A[k].s) /\ ~Parse(DefOf(D, A[k].n).t, A[k].s).ok,
           LAMBDA k : TypeRepr(A[k].n, DefOf(D, A[k].n).t), Len(A))
  \o SeqOf(LAMBDA k : ~Holds(A, C[k]), LAMBDA k : Repr(C[k]), Len(C))
Valid(D, C, A) == Wrong(D, C, A) = <<>>
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

\* ---- operations
Define(n, t, m, c, ok) == /\ ok = ~HasD(defs, n)
                          /\ defs' = IF ok THEN Append(defs, Def(n, t, m, c)) ELSE defs
                          /\ UNCHANGED <<cons, attrs>>
Constrain(c) == cons' = Append(cons, c) /\ UNCHANGED <<defs, attrs>>
Put(A, n, s) == IF HasA(A, n) THEN [k \in 1..Len(A) |-> IF A[k].n = n THEN [n |-> n, s |-> s] ELSE A[k]] ELSE Append(A, [n |-> n, s |-> s])
Add(n, s, ok) == /\ ok = ~HasA(attrs, n)
                 /\ attrs' = IF ok THEN Append(attrs, [n |-> n, s |-> s]) ELSE attrs
                 /\ UNCHANGED <<defs, cons>>
AddAll(A, L) == LET F[k \in 0..Len(L)] == IF k = 0 THEN [ok |-> TRUE, A |-> A]
                                          ELSE IF HasA(F[k - 1].A, L[k].n) THEN [ok |-> FALSE, A |-> F[k - 1].A]
                                          ELSE [F[k - 1] EXCEPT !.A = Append(@, L[k])]
                IN F[Len(L)]
AddMany(L, ok) == LET r == AddAll(attrs, L) IN ok = r.ok /\ attrs' = r.A /\ UNCHANGED <<defs, cons>>
\* replaces the text; with new = FALSE only of an attribute that is there
Set(n, s, new, ok) == /\ ok = (new \/ HasA(attrs, n))
                      /\ attrs' = IF ok THEN Put(attrs, n, s) ELSE attrs
                      /\ UNCHANGED <<defs, cons>>
Validate(ok, failed) == /\ ok = Valid(defs, cons, attrs) /\ SameBag(failed, Wrong(defs, cons, attrs)) /\ UNCHANGED avars
Accept(ok) == ok = Valid(defs, cons, attrs) /\ UNCHANGED avars
\* the attribute as a literal value
Literal(n, ok, v) ==
  /\ LET r == IF ~HasA(attrs, n) THEN Fail(EmptyV)
              ELSE IF HasD(defs, n) THEN Parse(DefOf(defs, n).t, TextOf(attrs, n)) ELSE Done(Str(TextOf(attrs, n))) IN
     ok = r.ok /\ v = (IF r.ok THEN r.v ELSE EmptyV)
  /\ UNCHANGED avars
\* the attribute as an instruction sees it: literal or value of a variable; one that is missing has no effect
Resolved(mem, n, ok, v) ==
  /\ LET s == TextOf(attrs, n)
         d == IF HasD(defs, n) THEN DefOf(defs, n) ELSE Def(n, "string", FALSE, "lit")
         r == IF ~HasA(attrs, n) THEN Done(EmptyV)
              ELSE IF IsVariable(d, s) THEN MGet(mem, IF d.c = "both" THEN VariableTexts[s] ELSE s, <<>>, EmptyV)
              ELSE Parse(d.t, s) IN
     ok = r.ok /\ v = (IF r.ok THEN r.v ELSE EmptyV)
  /\ UNCHANGED avars
\* texts $x are replaced by the text of x of the attributes L
Fill(A, L) == [k \in 1..Len(A) |-> IF A[k].s \in DOMAIN PlaceholderTexts /\ HasA(L, PlaceholderTexts[A[k].s])
                                   THEN [n |-> A[k].n, s |-> TextOf(L, PlaceholderTexts[A[k].s])] ELSE A[k]]
Placeholders(L, ok) ==
  /\ ok = (\A k \in 1..Len(attrs) : attrs[k].s \in DOMAIN PlaceholderTexts => HasA(L, PlaceholderTexts[attrs[k].s]))
  /\ attrs' = Fill(attrs, L)
  /\ UNCHANGED <<defs, cons>>

(***************************************************************************)
(* The attributes of the instructions and variables that are provided      *)
(* (doc/coreinstructions.rst, corevariables.rst), besides those that all   *)
(* of them have.                                                           *)
(***************************************************************************)
M(n) == Def(n, "string", TRUE, "var")
B(n) == Def(n, "string", FALSE, "both")
LR == <<M("leftVar"), M("rightVar")>>
IO == <<M("inputVar"), M("outputVar")>>
X(n) == [k |-> "exists", n |-> n]
K(defs0, cons0, kids) == [d |-> defs0, c |-> cons0, kids |-> kids]
A0(d) == K(d, <<>>, "none")
Catalog ==
  [t \in {"Condition", "Copy", "AddMember", "AddElement", "CopyFromProcedure", "CopyToProcedure", "Decrement", "Increment", "Equals", "GreaterThan",
          "GreaterThanOrEqual", "LessThan", "LessThanOrEqual", "Input", "Log", "Message", "Output", "ResetVariable", "UserConfirmation", "VarExists", "Wait",
          "WaitForVariable", "WaitForVariables", "Succeed", "Fail",
          "Choice", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Sequence", "UserChoice",
          "Async", "For", "ForceSuccess", "Include", "IncludeProcedure", "Inverter", "Listen", "Repeat"} |->
    CASE t \in {"Copy", "AddElement"} -> A0(IO)
      [] t = "AddMember" -> A0(Append(IO, Def("memberName", "string", TRUE, "lit")))
      [] t \in {"CopyFromProcedure", "CopyToProcedure"} -> A0(<<Def("file", "string", TRUE, "lit")>> \o IO)
      [] t \in {"Condition", "Decrement", "Increment", "ResetVariable", "VarExists"} -> A0(<<M("varName")>>)
      [] t \in {"Equals", "GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual"} -> A0(LR)
      [] t = "Input" -> A0(<<M("outputVar"), B("description")>>)
      [] t = "Log" -> K(<<B("message"), Def("inputVar", "string", FALSE, "var"), B("severity")>>, <<[k |-> "or", c |-> <<X("message"), X("inputVar")>>]>>, "none")
      [] t = "Message" -> A0(<<Def("text", "string", TRUE, "both")>>)
      [] t = "Output" -> A0(<<M("fromVar"), B("description")>>)
      [] t = "UserConfirmation" -> A0(<<Def("description", "string", TRUE, "both"), B("okText"), B("cancelText")>>)
      [] t = "Wait" -> A0(<<Def("timeout", "float64", FALSE, "both"), Def("blocking", "bool", FALSE, "both")>>)
      [] t = "WaitForVariable" -> A0(<<M("varName"), Def("timeout", "float64", TRUE, "both"), Def("equalsVar", "string", FALSE, "var")>>)
      [] t = "WaitForVariables" -> A0(<<Def("timeout", "float64", TRUE, "both"), Def("varType", "string", TRUE, "both")>>)
      [] t \in {"Succeed", "Fail"} -> A0(<<>>)
      [] t = "Choice" -> K(<<M("varName")>>, <<>>, "many")
      [] t = "ParallelSequence" -> K(<<Def("successThreshold", "uint32", FALSE, "lit"), Def("failureThreshold", "uint32", FALSE, "lit")>>, <<>>, "many")
      [] t = "UserChoice" -> K(<<B("description")>>, <<>>, "many")
      [] t \in {"Fallback", "ReactiveFallback", "ReactiveSequence", "Sequence"} -> K(<<>>, <<>>, "many")
      [] t = "For" -> K(<<M("arrayVar"), M("elementVar")>>, <<>>, "one")
      [] t = "Include" -> K(<<Def("path", "string", TRUE, "lit"), Def("file", "string", FALSE, "lit")>>, <<>>, "one")
      [] t = "IncludeProcedure" -> K(<<Def("file", "string", TRUE, "lit"), Def("path", "string", FALSE, "lit")>>, <<>>, "one")
      [] t = "Listen" -> K(<<Def("varNames", "string", TRUE, "lit"), Def("forceSuccess", "bool", FALSE, "both")>>, <<>>, "one")
      [] t = "Repeat" -> K(<<Def("maxCount", "int32", FALSE, "both")>>, <<>>, "one")
      [] OTHER -> K(<<>>, <<>>, "one")]
VarCatalog ==
  [t \in {"Local", "File"} |->
    IF t = "Local" THEN K(<<Def("type", "string", FALSE, "lit"), Def("value", "string", FALSE, "lit"), Def("dynamicType", "bool", FALSE, "lit")>>,
                          <<[k |-> "or", c |-> <<X("type"), [k |-> "not", c |-> <<X("value")>>]>>]>>, "none")
    ELSE K(<<Def("file", "string", TRUE, "lit"), Def("pretty", "bool", FALSE, "lit")>>, <<>>, "none")]
NameDef == Def("name", "string", FALSE, "lit")
AllDefs(t) == <<NameDef, Def("isRoot", "bool", FALSE, "lit")>>
              \o (IF Catalog[t].kids = "none" THEN <<>> ELSE <<Def("showCollapsed", "bool", FALSE, "lit")>>) \o Catalog[t].d
AllVarDefs(t) == <<NameDef>> \o VarCatalog[t].d
=============================================================================

------------------------------- MODULE Program --------------------------------
(***************************************************************************)
(* The programs: oac-tree-cli and oac-tree-daemon, from their options, the *)
(* files they read and what the user enters, to what they show and how     *)
(* they end. Whether a procedure can be executed at all is decided by      *)
(* Document. Here is what happens when it is, for trees whose instructions *)
(* follow each other.                                                      *)
(*   line   [k, sev, s]: k "log" (with its severity), "out" (anything      *)
(*          else that is shown), "ask" (a question whose line is not       *)
(*          ended) or "trouble" (anything about something that went wrong: *)
(*          there are no rules for these texts)                            *)
(*   value  [t, i, s]: type, and the number or the text                    *)
(*   R      what there is while the tree is executed: who (the program),   *)
(*          max (least important severity that is shown), mem (variables), *)
(*          in (lines the user has still to enter), out (what was shown)   *)
(***************************************************************************)
EXTENDS Document
Line(k, sev, s) == [k |-> k, sev |-> sev, s |-> s]
Levels9 == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE">>
LogNames == <<"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace">>
Index(names, s) == IF \E k \in 1..9 : names[k] = s THEN (CHOOSE k \in 1..9 : names[k] = s) - 1 ELSE 9
Show(R, x) == [R EXCEPT !.out = Append(@, x)]
Log(R, sev, s) == IF sev <= R.max THEN Show(R, Line("log", sev, s)) ELSE R
OutL(R, s) == Show(R, Line("out", 0, s))
\* several in a row are one
Trouble(R, sev) == IF R.max < sev \/ (R.out # <<>> /\ R.out[Len(R.out)].k = "trouble") THEN R ELSE Show(R, Line("trouble", 0, ""))

\* ---- values
Whole(i) == [t |-> "int32", i |-> i, s |-> ""]
TextV(s) == [t |-> "string", i |-> 0, s |-> s]
Json(v) == IF v.t = "string" THEN "\"" \o v.s \o "\"" ELSE ToString(v.i)
Shown(v) == "{\"type\":\"" \o v.t \o "\"} " \o Json(v)
\* what can be entered
Typed == {"1", "2", "5", "-3", "x", "12y", "", " 7 "}
NumberTyped(s) == s \in {"1", "2", "5", "-3", " 7 "}
NumberOf(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "5" -> 5 [] s = "-3" -> 0 - 3 [] OTHER -> 7
\* variables of the main procedure as they are set up
LitInts == {"0", "1", "-1", "42", "127", "128", "255", "300", "70000"}
IntOf(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "-1" -> 0 - 1 [] s = "2" -> 2 [] s = "42" -> 42 [] s = "127" -> 127 [] s = "128" -> 128 [] s = "255" -> 255 [] s = "300" -> 300 [] OTHER -> 70000
Initial(v) == IF TextOf(v.a, "type") = "T:int" THEN Whole(IF HasA(v.a, "value") THEN IntOf(TextOf(v.a, "value")) ELSE 0)
              ELSE TextV(IF HasA(v.a, "value") THEN "some text" ELSE "")
VarLine(R, n, v) == IF R.who = "cli" THEN Log(R, 6, "Variable (" \o n \o ") updated:" \o Json(v)) ELSE R
Store(R, n, v) == VarLine([R EXCEPT !.mem = [x \in DOMAIN R.mem |-> IF x = n THEN v ELSE R.mem[x]]], n, v)

\* ---- execution: [ok, R, s]; s is what has been started, as a tree [f, c]
Report(R, n, what) == Log(R, 6, "Instruction (" \o n.t \o ":" \o TextOf(n.a, "name") \o ") : " \o what)
RECURSIVE Fresh(_)
Fresh(n) == [f |-> FALSE, c |-> [k \in 1..Len(n.c) |-> Fresh(n.c[k])]]
Started(n) == [Fresh(n) EXCEPT !.f = TRUE]
RECURSIVE ResetLines(_, _, _), ResetKids(_, _, _, _)
ResetKids(R, n, s, k) == IF k > Len(n.c) THEN R ELSE ResetKids(ResetLines(R, n.c[k], s.c[k]), n, s, k + 1)
ResetLines(R, n, s) == LET Q == ResetKids(R, n, s, 1) IN IF s.f THEN Report(Q, n, "Not started") ELSE Q

\* texts of attributes, possibly from variables; [ok, s]
Given(R, n, a) ==
  LET s == TextOf(n.a, a) IN
  IF s = "@s" THEN [ok |-> "s" \in DOMAIN R.mem, s |-> IF "s" \in DOMAIN R.mem THEN R.mem["s"].s ELSE ""]
  ELSE IF s = "@zz" THEN [ok |-> FALSE, s |-> ""] ELSE [ok |-> TRUE, s |-> s]
Known(R, n, a) == TextOf(n.a, a) \in DOMAIN R.mem
Var(R, n, a) == R.mem[TextOf(n.a, a)]
Got(ok, init, R) == [ok |-> ok, init |-> init, R |-> R]
Bad(R) == Got(FALSE, TRUE, Trouble(R, 4))
Wrongly(R) == Got(FALSE, TRUE, Trouble(R, 3))
Tell(R, text) == IF R.who = "cli" THEN OutL(R, text) ELSE Log(R, 6, text)
\* the user is asked when the instruction begins: R1 is before the question; its own report comes first here
Asked(R) == [R EXCEPT !.in = IF @ = <<>> THEN <<>> ELSE Tail(@)]
OkText(n) == IF HasA(n.a, "okText") THEN TextOf(n.a, "okText") ELSE "Ok"
CancelText(n) == IF HasA(n.a, "cancelText") THEN TextOf(n.a, "cancelText") ELSE "Cancel"
Act(R, n, begun(_)) ==
  CASE n.t = "Succeed" -> Got(TRUE, TRUE, begun(R))
    [] n.t = "Fail" -> Got(FALSE, TRUE, begun(R))
    [] n.t = "Wait" -> Got(TRUE, TRUE, begun(R))
    [] n.t = "Message" ->
         LET m == Given(R, n, "text") Bg == begun(R) IN IF m.ok THEN Got(TRUE, TRUE, Tell(Bg, m.s)) ELSE Wrongly(Bg)
    [] n.t = "Log" ->
         LET sev == IF HasA(n.a, "severity") THEN Given(R, n, "severity") ELSE [ok |-> TRUE, s |-> "info"]
             m == Given(R, n, "message")
             Bg == begun(R)
             more == IF ~HasA(n.a, "inputVar") THEN "" ELSE IF Known(R, n, "inputVar") THEN Json(Var(R, n, "inputVar")) ELSE "" IN
         IF ~sev.ok \/ Index(LogNames, sev.s) = 9 \/ ~m.ok \/ (HasA(n.a, "inputVar") /\ ~Known(R, n, "inputVar")) THEN Wrongly(Bg)
         ELSE Got(TRUE, TRUE, Log(Bg, Index(LogNames, sev.s), m.s \o more))
    [] n.t = "Output" ->
         LET d == Given(R, n, "description") Bg == begun(R) IN
         IF ~d.ok \/ ~Known(R, n, "fromVar") THEN Wrongly(Bg)
         ELSE LET v == Var(R, n, "fromVar") IN
              Got(TRUE, TRUE, IF R.who = "cli" THEN OutL(IF d.s = "" THEN Bg ELSE OutL(Bg, d.s), Shown(v))
                              ELSE Log(Bg, 6, d.s \o " (" \o v.t \o "):" \o Json(v)))
    [] n.t = "Condition" ->
         LET Bg == begun(R) IN
         IF ~Known(R, n, "varName") THEN Wrongly(Bg)
         ELSE IF Var(R, n, "varName").t # "int32" THEN Bad(Bg) ELSE Got(Var(R, n, "varName").i # 0, TRUE, Bg)
    [] n.t = "Increment" ->
         LET Bg == begun(R) IN
         IF ~Known(R, n, "varName") THEN Wrongly(Bg)
         ELSE IF Var(R, n, "varName").t # "int32" THEN Bad(Bg)
         ELSE Got(TRUE, TRUE, Store(Bg, TextOf(n.a, "varName"), Whole(Var(R, n, "varName").i + 1)))
    [] n.t = "Input" ->
         LET d == Given(R, n, "description") IN
         IF ~Known(R, n, "outputVar") \/ ~d.ok \/ R.who = "daemon" THEN Got(FALSE, FALSE, Trouble(R, 3))
         ELSE LET v == Var(R, n, "outputVar")
                  Q == Show(begun(R), Line("ask", 0, d.s \o " (" \o v.t \o "): "))
                  A == Asked(Q) IN
              IF Q.in = <<>> \/ (v.t = "int32" /\ ~NumberTyped(Head(Q.in))) THEN Wrongly(A)
              ELSE Got(TRUE, TRUE, Store(A, TextOf(n.a, "outputVar"), IF v.t = "int32" THEN Whole(NumberOf(Head(Q.in))) ELSE TextV(Head(Q.in))))
    [] n.t = "UserConfirmation" ->
         LET d == Given(R, n, "description") IN
         IF ~d.ok \/ R.who = "daemon" THEN Got(FALSE, FALSE, Trouble(R, 3))
         ELSE LET Q == OutL(OutL(OutL(begun(R), d.s), "1: " \o OkText(n)), "2: " \o CancelText(n))
                  A == Asked(Q) IN
              IF Q.in = <<>> \/ Head(Q.in) \notin {"1", "2"} THEN Wrongly(A)
              ELSE Got(Head(Q.in) = "1", TRUE, OutL(A, (IF Head(Q.in) = "1" THEN OkText(n) ELSE CancelText(n)) \o " selected"))

Kinds == {"Succeed", "Fail", "Wait", "Message", "Log", "Output", "Condition", "Increment", "Input", "UserConfirmation",
          "Sequence", "Fallback", "Inverter", "ForceSuccess", "Repeat", "Include"}
RECURSIVE Exec(_, _), Some(_, _, _, _, _), Times(_, _, _, _)
End(R, n, ok, s) == [ok |-> ok, R |-> Report(R, n, IF ok THEN "Success" ELSE "Failure"), s |-> s]
\* children from the k-th on, as long as they end with `go`; s: what has been started
Some(R, n, k, go, s) ==
  IF k > Len(n.c) THEN [ok |-> go, R |-> R, s |-> s]
  ELSE LET r == TLCEval(Exec(R, n.c[k])) IN
       IF r.ok = go THEN Some(r.R, n, k + 1, go, [s EXCEPT !.c[k] = r.s]) ELSE [ok |-> r.ok, R |-> r.R, s |-> [s EXCEPT !.c[k] = r.s]]
\* the child `left` more times
Times(R, n, left, s) ==
  IF left = 0 THEN [ok |-> TRUE, R |-> R, s |-> s]
  ELSE LET r == TLCEval(Exec(IF s.c[1].f THEN ResetLines(R, n.c[1], s.c[1]) ELSE R, n.c[1])) IN
       IF r.ok THEN Times(r.R, n, left - 1, [s EXCEPT !.c[1] = r.s]) ELSE [ok |-> FALSE, R |-> r.R, s |-> [s EXCEPT !.c[1] = r.s]]
Exec(R, n) ==
  LET Bg == Report(R, n, "Not finished")
      S0 == Started(n) IN
  CASE n.t \in {"Sequence", "Fallback"} -> LET r == Some(Bg, n, 1, n.t = "Sequence", S0) IN End(r.R, n, r.ok, r.s)
    [] n.t \in {"Inverter", "ForceSuccess", "Include"} ->
         LET r == Some(Bg, n, 1, TRUE, S0) IN End(r.R, n, IF n.t = "Inverter" THEN ~r.ok ELSE n.t = "ForceSuccess" \/ r.ok, r.s)
    [] n.t = "Repeat" ->
         LET r == Times(Bg, n, IF HasA(n.a, "maxCount") THEN IntOf(TextOf(n.a, "maxCount")) ELSE 0, S0) IN End(r.R, n, r.ok, r.s)
    [] OTHER -> LET r == Act(R, n, LAMBDA Q : Report(Q, n, "Not finished")) IN End(r.R, n, r.ok, S0)

(***************************************************************************)
(* The programs. O: the options: who, file, v (how much to show, "" not    *)
(* given), validate, help. S as in Document; there and wf: is there a file *)
(* and is it XML? typed: what the user enters.                             *)
(***************************************************************************)
SortedVars(p) == Keep(p.vars, LAMBDA v : v.n = "n") \o Keep(p.vars, LAMBDA v : v.n = "s")
\* variables, in order of their names, that are set up before one that cannot be
Good(S, reg) == LET V == SortedVars(S.p)
                    F[k \in 0..Len(V)] == IF k = 0 THEN <<>> ELSE IF Len(F[k - 1]) < k - 1 \/ ~VarOK(reg, V[k]) THEN F[k - 1] ELSE Append(F[k - 1], V[k])
                IN F[Len(V)]
RECURSIVE VarLines(_, _)
VarLines(R, V) == IF V = <<>> THEN R ELSE VarLines(VarLine(R, Head(V).n, Initial(Head(V))), Tail(V))
Ended(exit, R) == [exit |-> exit, out |-> R.out]
\* exit: -1: any
Run(O, S, there, wf, x, typed) ==
  LET R0 == [who |-> O.who, max |-> Index(Levels9, IF O.v = "" THEN "WARNING" ELSE O.v), mem |-> [k \in {} |-> Whole(0)], in |-> typed, out |-> <<>>] IN
  IF O.help \/ O.file = "" THEN Ended(0 - 1, OutL(R0, "usage"))
  ELSE IF ~there \/ ~wf \/ ~ReadOK(x) THEN Ended(1, Trouble(R0, 3))
  ELSE LET T == Types(S.tfiles, S.dir, S.p)
           r == TLCEval(Setup(S))
           V == IF ~Valid(ProcDefs, <<>>, S.p.a) \/ ~T.ok THEN <<>> ELSE Good(S, T.reg)
           R1 == VarLines(R0, V) IN
       IF ~r.ok THEN Ended(1, Trouble(R1, 3))
       ELSE IF O.validate THEN Ended(0, OutL(R1, "Procedure parsing and setup successful: " \o O.file))
       ELSE LET names == {V[k].n : k \in 1..Len(V)}
                e == TLCEval(Exec([R1 EXCEPT !.mem = [m \in names |-> Initial(V[CHOOSE k \in 1..Len(V) : V[k].n = m])]], r.n))
                last == "Procedure ended with state: " \o (IF e.ok THEN "Success" ELSE "Failure") IN
            Ended(0, Tell(e.R, last))
===============================================================================

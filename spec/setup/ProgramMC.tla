------------------------------ MODULE ProgramMC ------------------------------
(***************************************************************************)
(* All small procedures, built element by element, executed by both        *)
(* programs at all levels with everything a user may enter. What Program   *)
(* says is compared with statements that know nothing of lines and levels. *)
(***************************************************************************)
EXTENDS Program
CONSTANTS MaxNodes, MaxTyped, Words
VARIABLES S, count
vars == <<S, count, avars>>
At(n, s) == [n |-> n, s |-> s]
Leaf(t, a, k) == [t |-> t, a |-> <<At("name", "k" \o ToString(k))>> \o a, c |-> <<>>]
Basic(k) == {Leaf(t, <<>>, k) : t \in {"Sequence", "Fallback", "Inverter", "ForceSuccess", "Fail"}}
            \union {Leaf("Repeat", <<At("maxCount", m)>>, k) : m \in {"0", "2"}}
            \union {Leaf("Message", <<At("text", "say")>>, k), Leaf("Increment", <<At("varName", "n")>>, k), Leaf("Increment", <<At("varName", "s")>>, k),
                    Leaf("Condition", <<At("varName", "n")>>, k), Leaf("Log", <<At("message", "say "), At("inputVar", "n"), At("severity", "error")>>, k),
                    Leaf("Input", <<At("outputVar", "n"), At("description", "say")>>, k), Leaf("UserConfirmation", <<At("description", "say")>>, k)}
Init == /\ S = [main |-> "m", dir |-> "", p |-> [NoProc EXCEPT !.vars = <<[n |-> "s", t |-> "Local", a |-> <<At("name", "s"), At("type", "T:str")>>],
                                                                         [n |-> "n", t |-> "Local", a |-> <<At("name", "n"), At("type", "T:int"), At("value", "-1")>>]>>],
                files |-> [f \in {"a"} |-> [ok |-> TRUE, dir |-> "", x |-> Write(NoProc)]], tfiles |-> [f \in {"t"} |-> "T:p1"]]
        /\ count = 0 /\ defs = <<>> /\ cons = <<>> /\ attrs = <<>>
RECURSIVE Grow(_, _)
Grow(n, k) ==
  (IF Catalog[n.t].kids = "none" \/ (Catalog[n.t].kids = "one" /\ n.c # <<>>) THEN {} ELSE {[n EXCEPT !.c = Append(@, k)]})
  \union (IF n.c = <<>> THEN {} ELSE {[n EXCEPT !.c[Len(n.c)] = m] : m \in Grow(n.c[Len(n.c)], k)})
Next == /\ count < MaxNodes /\ count' = count + 1
        /\ \E k \in Basic(count + 1) : IF S.p.tops = <<>> THEN S' = [S EXCEPT !.p.tops = <<k>>]
                                       ELSE \E m \in Grow(S.p.tops[1], k) : S' = [S EXCEPT !.p.tops = <<m>>]
        /\ UNCHANGED avars
Spec == Init /\ [][Next]_vars

Lines == UNION {[1..k -> Words] : k \in 0..MaxTyped}
Opt(who, v, val) == [who |-> who, file |-> "m", v |-> v, validate |-> val, help |-> FALSE]
RunOf(who, v, val, typed) == TLCEval(Run(Opt(who, v, val), S, TRUE, TRUE, Write(S.p), typed))
\* without lines and levels: [ok, n, left]; asks: can somebody be asked?
RECURSIVE Means(_, _, _), Each(_, _, _, _)
St(ok, n, left) == [ok |-> ok, n |-> n, left |-> left]
Drop(q) == IF q = <<>> THEN q ELSE Tail(q)
Each(N, s, asks, go) == IF N = <<>> THEN [s EXCEPT !.ok = go]
                        ELSE LET r == TLCEval(Means(Head(N), s, asks)) IN IF r.ok # go THEN r ELSE Each(Tail(N), r, asks, go)
Means(x, s, asks) ==
  CASE x.t \in {"Message", "Log"} -> [s EXCEPT !.ok = TRUE]
    [] x.t = "Fail" -> [s EXCEPT !.ok = FALSE]
    [] x.t = "Condition" -> [s EXCEPT !.ok = (s.n # 0)]
    [] x.t = "Increment" -> IF TextOf(x.a, "varName") = "n" THEN St(TRUE, s.n + 1, s.left) ELSE [s EXCEPT !.ok = FALSE]
    [] x.t = "Input" -> IF ~asks THEN [s EXCEPT !.ok = FALSE]
                        ELSE IF s.left # <<>> /\ NumberTyped(Head(s.left)) THEN St(TRUE, NumberOf(Head(s.left)), Tail(s.left)) ELSE St(FALSE, s.n, Drop(s.left))
    [] x.t = "UserConfirmation" -> IF ~asks THEN [s EXCEPT !.ok = FALSE] ELSE St(s.left # <<>> /\ Head(s.left) = "1", s.n, Drop(s.left))
    [] x.t = "Inverter" -> LET r == Means(x.c[1], s, asks) IN [r EXCEPT !.ok = ~@]
    [] x.t = "ForceSuccess" -> LET r == Means(x.c[1], s, asks) IN [r EXCEPT !.ok = TRUE]
    [] x.t = "Repeat" -> IF TextOf(x.a, "maxCount") = "0" THEN [s EXCEPT !.ok = TRUE] ELSE Each(<<x.c[1], x.c[1]>>, s, asks, TRUE)
    [] OTHER -> Each(x.c, s, asks, x.t = "Sequence")
RECURSIVE Complete(_)
Complete(x) == (Catalog[x.t].kids # "none" => x.c # <<>>) /\ \A k \in 1..Len(x.c) : Complete(x.c[k])
Ok == S.p.tops # <<>> /\ Complete(S.p.tops[1])
Final(ok) == "Procedure ended with state: " \o (IF ok THEN "Success" ELSE "Failure")

\* the state that is reported in the end, by both programs
Verdict ==
  Ok => \A typed \in Lines :
          /\ LET r == RunOf("cli", "TRACE", FALSE, typed) IN r.exit = 0 /\ r.out[Len(r.out)] = Line("out", 0, Final(Means(S.p.tops[1], St(TRUE, 0 - 1, typed), TRUE).ok))
          /\ LET r == RunOf("daemon", "TRACE", FALSE, typed) IN r.exit = 0 /\ r.out[Len(r.out)] = Line("log", 6, Final(Means(S.p.tops[1], St(TRUE, 0 - 1, typed), FALSE).ok))
\* what cannot be set up is not executed
Refused == ~Ok => \A who \in {"cli", "daemon"} : LET r == RunOf(who, "TRACE", FALSE, <<>>) IN r.exit = 1 /\ r.out[Len(r.out)].k = "trouble"
\* a level decides what is shown and nothing else
Plain(q, sev) == Keep(q, LAMBDA x : x.k # "trouble" /\ x.sev <= sev)
LevelsOnlyHide ==
  \A typed \in Lines : \A who \in {"cli", "daemon"} :
    LET all == RunOf(who, "TRACE", FALSE, typed) IN
    \A k \in 1..9 : LET r == RunOf(who, Levels9[k], FALSE, typed) IN
      r.exit = all.exit /\ Plain(r.out, 9) = Plain(all.out, k - 1) /\ (k <= 3 => \A j \in 1..Len(r.out) : r.out[j].k # "trouble")
\* the daemon neither asks nor prints; whatever is typed
DaemonAlone == \A typed \in Lines : LET r == RunOf("daemon", "TRACE", FALSE, typed) IN
                 r = RunOf("daemon", "TRACE", FALSE, <<>>) /\ \A k \in 1..Len(r.out) : r.out[k].k \in {"log", "trouble"}
\* --validate ends as execution would begin, and does not execute
OnlyValidates == \A v \in {"WARNING", "TRACE"} : LET r == RunOf("cli", v, TRUE, <<"1">>)  e == RunOf("cli", v, FALSE, <<"1">>) IN
                   /\ r.exit = e.exit
                   /\ \A k \in 1..Len(r.out) : r.out[k].k # "ask" /\ ~\E n \in 1..MaxNodes : \E w \in {"Not finished", "Success", "Failure"} : \E t \in Kinds :
                        r.out[k].s = "Instruction (" \o t \o ":k" \o ToString(n) \o ") : " \o w
\* an instruction begins, ends and, before it begins again, is reset: in this order
RECURSIVE InOrder(_, _, _)
InOrder(q, who, st) ==
  IF q = <<>> THEN st # "Not finished"
  ELSE LET line(w) == Head(q).s = "Instruction (" \o who \o ") : " \o w IN
       IF line("Not finished") THEN st = "Not started" /\ InOrder(Tail(q), who, "Not finished")
       ELSE IF line("Success") \/ line("Failure") THEN (st = "Not finished" \/ (st = "Not started" /\ Head(q).s # "")) /\ InOrder(Tail(q), who, "done")
       ELSE IF line("Not started") THEN st = "done" /\ InOrder(Tail(q), who, "Not started")
       ELSE InOrder(Tail(q), who, st)
RECURSIVE AllNodes(_)
AllNodes(x) == {x} \union UNION {AllNodes(x.c[k]) : k \in 1..Len(x.c)}
Alternates == Ok => \A typed \in Lines : LET r == RunOf("cli", "TRACE", FALSE, typed) IN
                      \A x \in AllNodes(S.p.tops[1]) : InOrder(r.out, x.t \o ":" \o TextOf(x.a, "name"), "Not started")
==============================================================================

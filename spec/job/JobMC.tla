-------------------------------- MODULE JobMC --------------------------------
(* Everything jobs of small procedures can do while control threads give    *)
(* commands and set breakpoints at any moment. What users rely on is stated *)
(* over the reported states, the queue and the leaves that begin.           *)
EXTENDS Job
CONSTANTS Ctls,      \* the control threads
          MaxCmds,   \* commands and breakpoint changes of all of them
          Which,     \* set of trees
          Cmds       \* commands in use
VARIABLES used,      \* commands given
          g          \* what has happened, for the properties
mvars == <<tree, S, J, used, g>>

L == [t |-> "Leaf", z |-> 1, c |-> <<>>]
Nd(t, z, c) == [t |-> t, z |-> z, c |-> c]
Rp(z, c, m) == [t |-> "Rep", z |-> z, c |-> c, m |-> m, v |-> ""]
Trees ==
  CASE Which = "plain" -> { <<L>>, <<Nd("Seq", 3, <<2, 3>>), L, L>>, <<Rp(2, <<2>>, -1), L>> }
    [] Which = "leaf" -> { <<L>>, <<Rp(2, <<2>>, -1), L>> }
    [] Which = "deep" -> { <<Nd("RSeq", 3, <<2, 3>>), L, L>>, <<Nd("Fb", 4, <<2, 4>>), Nd("Inv", 2, <<3>>), L, L>>,
                           <<Rp(4, <<2>>, 2), Nd("Seq", 3, <<3, 4>>), L, L>>,
                           <<[t |-> "For", z |-> 2, c |-> <<2>>, av |-> "a", ev |-> "e"], L>> }
    [] Which = "loops" -> { <<Rp(5, <<2>>, 2), Nd("Fb", 4, <<3, 5>>), Nd("Inv", 2, <<4>>), L, L>>,
                            <<Rp(4, <<2>>, 2), Nd("RSeq", 3, <<3, 4>>), L, L>>, <<Rp(4, <<2>>, -1), Nd("RFb", 3, <<3, 4>>), L, L>>,
                            <<Rp(4, <<2>>, 2), Rp(3, <<3>>, 2), Nd("Seq", 2, <<4>>), L>>,
                            <<[t |-> "For", z |-> 4, c |-> <<2>>, av |-> "a", ev |-> "e"], Nd("Seq", 3, <<3, 4>>), L, L>>,
                            <<[t |-> "Choice", z |-> 4, c |-> <<2>>, v |-> "b"], Nd("Seq", 3, <<3, 4>>), L, L>>,
                            <<[t |-> "Lis", z |-> 4, c |-> <<2>>, vs |-> <<"e">>, fs |-> TRUE, fv |-> ""], Nd("Seq", 3, <<3, 4>>), L, L>> }
    [] Which = "async" -> { <<Nd("Async", 2, <<2>>), L>>, <<Nd("RFb", 4, <<2, 4>>), Nd("Async", 2, <<3>>), L, L>> }
Vals == [x \in {"a", "b", "e"} |-> CASE x = "a" -> [ty |-> "a", x |-> <<0, 1>>] [] x = "b" -> [ty |-> "a", x |-> <<0, 0>>] [] OTHER -> [ty |-> "i", x |-> <<7>>]]

Init == /\ tree \in Trees
        /\ S = InitState(tree, Ctls, NoVals)
        /\ J = InitJob(tree, Ctls, IF \E n \in 1..Len(tree) : tree[n].t \in {"For", "Choice", "Lis"} THEN Vals ELSE NoVals)
        /\ used = 0
        /\ g = [tk |-> 0, at |-> [n \in 1..Len(tree) |-> "no"], rdy |-> FALSE, stop |-> FALSE, vain |-> FALSE]
Give(t) == /\ Free(t) /\ used < MaxCmds /\ used' = used + 1
           /\ UNCHANGED <<tree, S>>
           /\ \/ \E c \in Cmds : Call(t, c) /\ UNCHANGED g
              \/ \E n \in Nodes, on \in BOOLEAN : N(n).t = "Leaf" /\ Mark(t, n, on) /\ UNCHANGED g
Done(t) == Return(t) /\ UNCHANGED <<tree, S, used, g>>
End == \E t \in Ctls : /\ \A u \in Ctls : Free(u)
                       /\ used = MaxCmds /\ Destroy(t) /\ UNCHANGED <<tree, S, used, g>>
Ghost(x) ==
  CASE x[3].k = "job" ->
         [g EXCEPT !.tk = IF x[3].s \in {"R", "T"} THEN 0 ELSE @,
                   \* stopped twice at a breakpoint without anything between
                   !.vain = @ \/ (x[3].s = "P" /\ J.st = "R" /\ J.nxt = "wait" /\ g.stop),
                   !.stop = IF x[3].s = "P" /\ J.st = "R" /\ J.nxt = "wait" THEN TRUE
                            ELSE IF x[3].s \in {"I", "H"} THEN FALSE ELSE @]
    [] J.pc = "bps" /\ x[2].pc = "tick" -> [g EXCEPT !.at = J.bp, !.rdy = Ready(S.st[1])]
    [] J.pc = "tick" /\ x[2].pc = "ticking" -> [g EXCEPT !.tk = IF @ > 1 THEN @ ELSE @ + 1, !.stop = FALSE]
    [] J.bl = 0 /\ x[2].bl # 0 -> [g EXCEPT !.stop = FALSE]      \* a breakpoint changes
    [] OTHER -> g
Go(steps) == \E x \in steps : S' = x[1] /\ J' = x[2] /\ g' = Ghost(x) /\ UNCHANGED <<tree, used>>
Runner == Go(RunnerSteps(S, J))
Steppers == Go(TreeSteps(S, J))
Control(t) == Go(CtlSteps(S, J, t))
Ending == Go(EndSteps(S, J))
Next == (\E t \in Ctls : Give(t) \/ Done(t) \/ Control(t)) \/ End \/ Runner \/ Steppers \/ Ending
Safe == Init /\ [][Next]_mvars
Fair == /\ WF_mvars(Runner) /\ WF_mvars(Ending)
        /\ \A t \in {MainThread} \cup Ctls \cup (1..4) : WF_mvars(t \in DOMAIN S.stk /\ Go(TreeStepsOf(S, J, t)))
        /\ \A t \in Ctls : SF_mvars(Control(t)) /\ WF_mvars(Done(t)) /\ WF_mvars(Give(t))
        /\ WF_mvars(End)
Live == Safe /\ Fair

\* ==== C02: the reported states follow the life of a job ====
Next1 == [x \in {"", "I", "R", "T", "P", "S", "F", "H"} |->
  CASE x = "" -> {"I"} [] x = "I" -> {"R", "T", "H"} [] x = "R" -> {"P", "S", "F", "H"} [] x = "T" -> {"P", "S", "F"}
    [] x = "P" -> {"R", "T", "H"} [] OTHER -> {"I"}]
Path == [][J.st' # J.st => J.st' \in Next1[J.st]]_mvars
\* a final state says how the procedure ended; nothing more is executed then
FinalState == /\ J.st = "S" /\ J.pc # "unset" => S.st[1] = "SU" \/ J.pc = "resetting" \/ J.pc = "setup" \/ J.pc = "say" \/ J.life \in {"deaf", "gone"}
              /\ J.st = "F" /\ J.pc = "wait" /\ J.life = "alive" => S.st[1] = "FA"
\* leaves of the procedure itself begin only while the job is running or stepping
Begins(t) == S.stk[t] # <<>> /\ Top(S, t).pc = "impl" /\ N(Top(S, t).n).t = "Leaf" /\ S'.stk[t] # <<>> /\ Top(S', t).pc = "leaf"
OnlyActive == [][Begins(MainThread) => J.st \in {"R", "T"}]_mvars
\* ==== C04: a step is one tick; a paused job does nothing ====
StepOne == J.st = "T" => g.tk <= 1
StepDone == [][J.st = "T" /\ J.st' # "T" => g.tk = 1]_mvars
\* ==== C05 ====
Armed == [][Begins(MainThread) /\ J.st = "R" /\ g.rdy => g.at[Top(S, MainThread).n] # "set"]_mvars
NoVainStop == ~g.vain
Kept == [][\A n \in Nodes : (J.bp[n] = "no") # (J.bp[n]' = "no") => \E t \in Ctls : J.ctl[t].pc = "bpset" /\ J.ctl[t].n = n]_mvars
\* ==== C06: after a reset everything is as at the beginning ====
Fresh == [][J.st \in {"S", "F", "H"} /\ J.st' = "I" =>
              /\ \A n \in Nodes : S.st[n] = "NS" /\ J.bp[n] # "rel"
              /\ S.val = J.ini
              /\ \A n \in Nodes : n \in DOMAIN S.stk => S.stk[n] = <<>>]_mvars
\* ==== C30: when nothing moves, what was reported is what is ====
View == Still(S, J) => \A n \in Nodes : J.view[n] = [b |-> J.bp[n] # "no", s |-> S.st[n]]
\* ==== C03: a halt ends the job, its destruction ends it altogether ====
HaltEnds == (J.q # <<>> /\ Head(J.q) = "halt") ~> (Fin(J.st) \/ J.life # "alive")
CallsReturn == \A t \in Ctls : (J.ctl[t].pc = "push") ~> (J.ctl[t].pc \in {"ret", "idle"})
Destroyed == (J.life = "dying") ~> (J.life = "gone" /\ \A t \in DOMAIN S.stk : Idle(S, t))
Gone == J.life = "gone" => \A n \in Nodes : S.st[n] = "NS"
Bound == Len(J.q) <= 3
=============================================================================

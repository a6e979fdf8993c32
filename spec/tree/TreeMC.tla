------------------------------- MODULE TreeMC -------------------------------
(***************************************************************************)
(* Everything small trees can do: the ticking thread executes and resets   *)
(* them, another one halts them at any moment, leaves end with any         *)
(* outcome. The invariants are what users rely on, stated without the      *)
(* machinery of Tree.                                                      *)
(***************************************************************************)
EXTENDS Tree
CONSTANTS MaxOps, MaxHalts, Small, Halter,
  Only     \* node types: only trees with one of them (all trees if empty)
VARIABLES ops, halts, late, swept
mvars == <<tree, S, ops, halts, late, swept>>

L == [t |-> "Leaf", z |-> 1, c |-> <<>>]
Nd(t, z, c) == [t |-> t, z |-> z, c |-> c]
Pr(z, c, a, b) == [t |-> "Par", z |-> z, c |-> c, sth |-> a, fth |-> b]
Rp(z, c, m) == [t |-> "Rep", z |-> z, c |-> c, m |-> m, v |-> ""]
TreesSmall ==
  { <<Nd("Seq", 3, <<2, 3>>), L, L>>, <<Nd("Fb", 3, <<2, 3>>), L, L>>,
    <<Nd("RSeq", 3, <<2, 3>>), L, L>>, <<Nd("RFb", 3, <<2, 3>>), L, L>>,
    <<Nd("Inv", 2, <<2>>), L>>, <<Nd("FS", 2, <<2>>), L>>, <<Nd("Inc", 2, <<2>>), L>>,
    <<Rp(2, <<2>>, 2), L>>, <<Rp(2, <<2>>, -1), L>>,
    <<[t |-> "For", z |-> 2, c |-> <<2>>, av |-> "a", ev |-> "e"], L>>,
    <<[t |-> "Choice", z |-> 3, c |-> <<2, 3>>, v |-> "a"], L, L>>,
    <<[t |-> "Lis", z |-> 2, c |-> <<2>>, vs |-> <<"e">>, fs |-> FALSE, fv |-> ""], L>>,
    <<Nd("Async", 2, <<2>>), L>>,
    <<Pr(3, <<2, 3>>, -1, -1), L, L>>, <<Pr(3, <<2, 3>>, 1, -1), L, L>> }
TreesBig ==
  { <<Nd("RSeq", 4, <<2, 3>>), L, Nd("Async", 2, <<4>>), L>>,
    <<Nd("RFb", 4, <<2, 4>>), Nd("Async", 2, <<3>>), L, L>>,
    <<Nd("Seq", 4, <<2, 3>>), L, Nd("Inv", 2, <<4>>), L>>,
    <<Nd("Fb", 4, <<2, 4>>), Nd("FS", 2, <<3>>), L, L>>,
    <<Rp(4, <<2>>, 2), Nd("Seq", 3, <<3, 4>>), L, L>>,
    <<Rp(3, <<2>>, 2), Nd("Async", 2, <<3>>), L>>,
    <<Pr(4, <<2, 4>>, 1, 2), Nd("Inv", 2, <<3>>), L, L>>,
    <<Pr(4, <<2, 3>>, -1, 2), L, Rp(2, <<4>>, 2), L>>,
    <<Nd("Async", 3, <<2>>), Nd("Async", 2, <<3>>), L>>,
    <<[t |-> "Choice", z |-> 4, c |-> <<2, 3>>, v |-> "a"], L, Nd("Inv", 2, <<4>>), L>>,
    <<[t |-> "Lis", z |-> 3, c |-> <<2>>, vs |-> <<"e">>, fs |-> TRUE, fv |-> ""], Nd("Inv", 2, <<3>>), L>> }
Trees == IF Small THEN TreesSmall ELSE TreesSmall \cup TreesBig
Vals == [x \in {"a", "e"} |-> IF x = "a" THEN [ty |-> "a", x |-> <<0, 1, 0>>] ELSE [ty |-> "i", x |-> <<7>>]]

Init == /\ tree \in {x \in Trees : Only = {} \/ \E n \in 1..Len(x) : x[n].t \in Only}
        /\ S = InitState(tree, {Halter}, Vals)
        /\ ops = 0 /\ halts = 0 /\ late = {} /\ swept = "no"
All == DOMAIN S.stk
Executing(s, n) == \E t \in DOMAIN s.stk : \E i \in 1..Len(s.stk[t]) : s.stk[t][i].n = n /\ s.stk[t][i].pc # "halt" /\ s.stk[t][i].pc # "reset"
Passed(s) == {n \in Nodes : Executing(s, n)}
DoTick == /\ Idle(S, MainThread) /\ ops < MaxOps /\ S' = Tick(S) /\ ops' = ops + 1 /\ UNCHANGED <<tree, halts, late, swept>>
DoReset == /\ Idle(S, MainThread) /\ ops < MaxOps /\ S' = Reset(S) /\ ops' = ops + 1
           /\ swept' = IF Idle(S, Halter) THEN "no" ELSE "dirty"
           /\ UNCHANGED <<tree, halts, late>>
DoSet == /\ \E n \in Nodes : N(n).t = "Lis"
         /\ S.val["e"].x[1] = 7
         /\ S' = [S EXCEPT !.val["e"].x[1] = 8] /\ UNCHANGED <<tree, ops, halts, late, swept>>
\* a reset of the whole tree takes back a halt, wholly or in part if both happen at once
Resetting == ~Idle(S, MainThread) /\ S.stk[MainThread][1].pc \in {"reset", "clear", "join"}
DoHalt == /\ Idle(S, Halter) /\ halts < MaxHalts /\ S' = Halt(S, Halter) /\ halts' = halts + 1
          /\ swept' = IF Resetting THEN "dirty" ELSE swept
          /\ UNCHANGED <<tree, ops, late>>
\* a step of a thread; when a halt has reached every node, those under way are noted
Step(t) == \E x \in Succ(S, t) :
  /\ S' = x[1]
  /\ LET over == t = Halter /\ Idle(x[1], Halter)
     IN /\ swept' = IF over THEN (IF swept = "dirty" THEN "no" ELSE "yes") ELSE swept
        /\ late' = IF over THEN Passed(x[1]) ELSE late
  /\ UNCHANGED <<tree, ops, halts>>
Main == Step(MainThread)
Others == \E t \in All \ {MainThread, Halter} : Step(t)
Halting == Step(Halter)
Next == DoTick \/ DoReset \/ DoSet \/ DoHalt \/ Main \/ Others \/ Halting
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Main) /\ WF_mvars(Others) /\ WF_mvars(Halting)

\* ==== what has to hold ====
Quiet(n) == ~\E m \in n..(n + N(n).z - 1) : Executing(S, m)
Kid(n, i) == S.st[Kids(n)[i]]
TypeOK == \A n \in Nodes : S.st[n] \in Status
\* nobody executes what somebody else executes
OneThread == \A n \in Nodes : Cardinality({t \in All : \E i \in 1..Len(S.stk[t]) : S.stk[t][i].n = n /\ S.stk[t][i].pc # "halt"}) <= 1
\* leaves run one at a time, apart from those below different asynchronous children
Running == {n \in Nodes : \E t \in All : S.stk[t] # <<>> /\ Top(S, t).n = n /\ Top(S, t).pc = "leaf"}
SeqOutcome == \A n \in Nodes : N(n).t \in {"Seq", "RSeq"} /\ Quiet(n) =>
  /\ S.st[n] = "SU" => \A i \in 1..Len(Kids(n)) : Kid(n, i) = "SU"
  /\ S.st[n] = "FA" => (\A i \in 1..Len(Kids(n)) : Kid(n, i) = "NS") \/
                        \E i \in 1..Len(Kids(n)) : Kid(n, i) = "FA" /\ \A j \in 1..(i - 1) : Kid(n, j) = "SU"
FbOutcome == \A n \in Nodes : N(n).t \in {"Fb", "RFb"} /\ Quiet(n) =>
  /\ S.st[n] = "FA" => \A i \in 1..Len(Kids(n)) : Kid(n, i) = "FA"
  /\ S.st[n] = "SU" => \E i \in 1..Len(Kids(n)) : Kid(n, i) = "SU" /\ \A j \in 1..(i - 1) : Kid(n, j) = "FA"
SeqOrder == \A n \in Nodes : N(n).t = "Seq" => \A i, j \in 1..Len(Kids(n)) :
  i < j /\ S.st[n] # "NS" /\ Kid(n, j) # "NS" /\ Quiet(n) => Kid(n, i) = "SU"
FbOrder == \A n \in Nodes : N(n).t = "Fb" => \A i, j \in 1..Len(Kids(n)) :
  i < j /\ S.st[n] # "NS" /\ Kid(n, j) # "NS" /\ Quiet(n) => Kid(n, i) = "FA"
\* while a reactive compound runs, one child runs; the others have been reset or were passed on the way to it
Reactive == \A n \in Nodes : N(n).t \in {"RSeq", "RFb"} /\ S.st[n] = "RU" /\ Quiet(n) =>
  \E i \in 1..Len(Kids(n)) : Kid(n, i) = "RU" /\ \A j \in 1..Len(Kids(n)) : j # i => Kid(n, j) \in {"NS", Pass(n)}
InvOutcome == \A n \in Nodes : N(n).t = "Inv" /\ Finished(S.st[n]) /\ Quiet(n) => {S.st[n], Kid(n, 1)} = {"SU", "FA"}
ForceOutcome == \A n \in Nodes : N(n).t = "FS" => S.st[n] # "FA"
RepCount == \A n \in Nodes : N(n).t = "Rep" /\ Quiet(n) =>
  /\ S.st[n] = "SU" => S.mem[n].cnt = N(n).m \/ N(n).m = 0
  /\ S.st[n] = "FA" => Kid(n, 1) = "FA"
ForOutcome == \A n \in Nodes : N(n).t = "For" /\ S.st[n] = "SU" /\ Quiet(n) => S.mem[n].cnt = Len(Vals["a"].x)
ChoiceOutcome == \A n \in Nodes : N(n).t = "Choice" /\ S.st[n] = "SU" /\ Quiet(n) => S.mem[n].cnt = Len(Vals["a"].x)
ParOutcome == \A n \in Nodes : N(n).t = "Par" /\ S.mem[n].sth > 0 /\ Quiet(n) =>
  /\ S.st[n] = "SU" => Cardinality({i \in 1..Len(Kids(n)) : Kid(n, i) = "SU"}) >= S.mem[n].sth
  /\ S.st[n] = "FA" => Cardinality({i \in 1..Len(Kids(n)) : Kid(n, i) = "FA"}) >= S.mem[n].fth
\* a child is executed asynchronously only while its parent has started
NoStray == \A n \in Nodes : N(n).t \in {"Async", "Par"} /\ S.st[n] = "NS" /\ ~Executing(S, n) =>
  \A i \in 1..Len(Kids(n)) : S.stk[Kids(n)[i]] = <<>>
Inv == /\ TypeOK /\ OneThread /\ SeqOutcome /\ FbOutcome /\ SeqOrder /\ FbOrder /\ Reactive /\ InvOutcome
       /\ ForceOutcome /\ RepCount /\ ForOutcome /\ ChoiceOutcome /\ ParOutcome /\ NoStray
\* after a halt has reached every node, no leaf begins but those whose execution was under way
NoLateBegin == [][\A t \in DOMAIN S.stk : swept = "yes" /\ swept' = "yes" /\ S.stk[t] # <<>> /\ Top(S, t).pc = "impl" /\ N(Top(S, t).n).t = "Leaf"
                     /\ S'.stk[t] # <<>> /\ Top(S', t).pc = "leaf" => Top(S, t).n \in late]_mvars
\* a reset brings everything back
AfterReset == [][Idle(S', MainThread) /\ ~Idle(S, MainThread) /\ S.stk[MainThread][1].pc = "clear" =>
                   /\ \A n \in Nodes : S'.st[n] = "NS"
                   /\ \A t \in All \ {Halter} : S'.stk[t] = <<>>
                   /\ halts = 0 => \A n \in Nodes : ~S'.flag[n]]_mvars
\* everything ends by itself
Ends == []<>(\A t \in All : S.stk[t] = <<>>)
=============================================================================

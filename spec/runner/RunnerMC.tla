------------------------------- MODULE RunnerMC -------------------------------
(***************************************************************************)
(* Everything a runner can do with small trees: runs, single steps, resets *)
(* and breakpoints in any order, pauses and halts from the callback and    *)
(* from another thread at any moment. The properties are stated on what    *)
(* can be seen from outside, with counters of their own.                   *)
(***************************************************************************)
EXTENDS Runner
CONSTANTS MaxOps, MaxAsks, MaxBps, Big
VARIABLES ops, asks,
  due,            \* ticks begun without their callback
  after,          \* ticks begun in this run after it was asked to stop
  dirty,          \* a halt and a reset happened at once
  halted          \* a halt was asked for since the last reset
mvars == <<tree, S, R, ops, asks, due, after, dirty, halted>>
Ctls == {-1, -2}
L == [t |-> "Leaf", z |-> 1, c |-> <<>>]
Nd(t, z, c) == [t |-> t, z |-> z, c |-> c]
Rp(z, c, m) == [t |-> "Rep", z |-> z, c |-> c, m |-> m, v |-> ""]
Trees == { <<L>>, <<Nd("Seq", 3, <<2, 3>>), L, L>>, <<Rp(2, <<2>>, 2), L>>, <<Nd("Inc", 2, <<2>>), L>> }
         \cup (IF Big THEN { <<Nd("RSeq", 3, <<2, 3>>), L, L>>, <<Nd("Fb", 4, <<2, 4>>), Nd("Inv", 2, <<3>>), L, L>>, <<Rp(2, <<2>>, -1), L>>, <<Nd("Async", 2, <<2>>), L>> } ELSE {})
Vals == [x \in {"a"} |-> [ty |-> "i", x |-> <<0>>]]
Init == /\ tree \in Trees
        /\ S = InitState(tree, Ctls, Vals)
        /\ R = InitRunner(Ctls)
        /\ ops = 0 /\ asks = 0 /\ due = 0 /\ after = 0 /\ dirty = FALSE /\ halted = FALSE
Same == UNCHANGED <<tree, S, asks, due, dirty, halted>>
Free == R.pc = "idle" /\ R.ctl[-1] = "idle" /\ Idle(S, MainThread)
Halting == \E t \in Ctls : R.ctl[t] \in {"halt", "halting"}
Op == ops < MaxOps /\ ops' = ops + 1
DoAttach == Free /\ ~R.has /\ R.ctl[-2] = "idle" /\ R' = Attach(R) /\ Same /\ UNCHANGED <<ops, after>>
DoRun == Free /\ Op /\ \E b \in BOOLEAN : R' = Run(R, b) /\ after' = 0 /\ Same
DoMark == (Free \/ (Here(R) /\ R.pc = "incb")) /\ Op /\ Len(R.bps) < MaxBps /\ \E n \in Nodes : R' = SetBp(R, n) /\ R' # R /\ Same /\ UNCHANGED after
DoUnmark == (Free \/ (Here(R) /\ R.pc = "incb")) /\ Op /\ \E n \in Nodes : R' = Clear(R, n) /\ R' # R /\ Same /\ UNCHANGED after
DoForget == Free /\ Op /\ R.cur # <<>> /\ R' = Forget(R) /\ Same /\ UNCHANGED after
DoReset == /\ Free /\ R.has /\ Op /\ S' = Reset(S) /\ halted' = FALSE /\ dirty' = Halting
           /\ UNCHANGED <<tree, R, asks, due, after>>
DoAsk == /\ asks < MaxAsks /\ asks' = asks + 1
         /\ \E t \in Ctls, c \in {"pause", "halt"} : /\ R.ctl[t] = "idle" /\ Idle(S, t) /\ (t = -1 => Free \/ (Here(R) /\ R.pc = "incb")) /\ R' = Ask(R, t, c)
         /\ UNCHANGED <<tree, S, ops, due, after, dirty, halted>>
Main == /\ R.pc # "ticking" \/ Idle(S, MainThread)
        /\ \E x \in RunSteps(S, R) :
             /\ S' = x[1] /\ R' = x[2]
             /\ due' = due + (IF R.pc = "tick" /\ R.has THEN 1 ELSE 0) - (IF x[3] = Tau THEN 0 ELSE 1)
             /\ after' = after + (IF R.pc = "tick" /\ R.has /\ R.run /\ R.brk THEN 1 ELSE 0)
        /\ UNCHANGED <<tree, ops, asks, dirty, halted>>
CbEnd == R.pc = "incb" /\ R.ctl[-1] = "idle" /\ R' = [R EXCEPT !.pc = "cbend"] /\ Same /\ UNCHANGED <<ops, after>>
Ran == R.pc = "done" /\ R' = [R EXCEPT !.pc = "idle"] /\ Same /\ UNCHANGED <<ops, after>>
Ctl(t) == /\ \E x \in CtlSteps(S, R, t) : S' = x[1] /\ R' = x[2] /\ halted' = (halted \/ (R.ctl[t] = "halting" /\ R.has /\ ~dirty))
                                              /\ dirty' = (Halting' /\ (dirty \/ (R.ctl[t] = "halt" /\ R.pc = "idle" /\ ~Idle(S, MainThread))))
          /\ UNCHANGED <<tree, ops, asks, due, after>>
Asked(t) == R.ctl[t] = "ret" /\ R' = [R EXCEPT !.ctl[t] = "idle"] /\ Same /\ UNCHANGED <<ops, after>>
Part(t) == \E x \in Succ(S, t) : S' = x[1] /\ UNCHANGED <<tree, R, ops, asks, due, after, dirty, halted>>
TreeStep == \E t \in DOMAIN S.stk : Part(t)
Others == \E t \in DOMAIN S.stk \ ({MainThread} \cup Ctls) : Part(t)
Next == DoAttach \/ DoRun \/ DoMark \/ DoUnmark \/ DoForget \/ DoReset \/ DoAsk \/ Main \/ CbEnd \/ Ran \/ TreeStep
        \/ \E t \in Ctls : Ctl(t) \/ Asked(t)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Main) /\ WF_mvars(CbEnd) /\ WF_mvars(Ran) /\ WF_mvars(Part(MainThread)) /\ WF_mvars(Others)
        /\ \A t \in Ctls : WF_mvars(Ctl(t)) /\ WF_mvars(Asked(t)) /\ WF_mvars(Part(t))

\* ==== what has to hold ====
InRun == R.run /\ R.pc \notin {"idle", "done"}
\* every tick is followed by one callback, before anything else
Callbacks == due \in {0, 1} /\ (R.pc # "ticking" => due = 0)
\* a run begins at most one tick after somebody asked it to stop, and none after that
StopsSoon == after <= 1
\* breakpoints: a run does not tick while an instruction that is next has an armed one, and reports the ones it stopped at
Plain == \A n \in Nodes : N(n).t # "Async"
Respects == R.pc = "tick" /\ R.run /\ R.has /\ Plain => \A i \in 1..Len(R.bps) : R.bps[i].rel \/ R.bps[i].n \notin NextInstrs(S)
CurTrue == \A i \in 1..Len(R.cur) : R.cur[i] \in Nodes
Unique == \A i, j \in 1..Len(R.bps) : R.bps[i].n = R.bps[j].n => i = j
\* without a procedure nothing happens
Nothing == ~R.has => due = 0 /\ \A n \in Nodes : S.st[n] = "NS"
\* a run returns only for a reason
Reasons == [][R.run /\ R.pc \notin {"done", "idle"} /\ R'.pc = "done" => ~R.has \/ Finished(S.st[1]) \/ S.flag[1] \/ R.brk \/ R'.cur # <<>>]_mvars
\* a run does not tick a tree that has ended
NoneAfterEnd == [][R.run /\ due' > due => ~Finished(S.st[1])]_mvars
\* one tick at most of a halted tree
HaltEnds == [][R.run /\ R.pc = "loop" /\ halted => R'.pc \in {"loop", "done"}]_mvars
\* single steps tick once
Single == [][~R.run /\ R.pc = "cbend" /\ R'.pc # R.pc => R'.pc = "done"]_mvars
\* a breakpoint stops a run only once: continuing makes a tick, unless the tree is over or it is asked to stop
Released == [][R.pc = "look" /\ R'.cur # <<>> => \A i \in 1..Len(R'.cur) : \E j \in 1..Len(R'.bps) : R'.bps[j] = [n |-> R'.cur[i], rel |-> TRUE]]_mvars
Rearmed == [][due' < due => \A i \in 1..Len(R'.bps) : ~R'.bps[i].rel]_mvars
\* a run that is asked to stop returns, also when nothing in the tree ends
Stops == (R.brk /\ R.pc \notin {"idle", "start"}) ~> (R.pc = "idle")
Asks == \A t \in Ctls : (R.ctl[t] # "idle") ~> (R.ctl[t] = "idle")
===============================================================================

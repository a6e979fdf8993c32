---------------------------- MODULE CmdQueueImpl ----------------------------
(***************************************************************************)
(* How the queue does it: one mutex, one condition variable, a deque,      *)
(* notify_one after the mutex has been released, spurious wakeups. TLC     *)
(* checks that every behaviour refines CmdQueue, that interrupt actions    *)
(* run in acceptance order, and that no waiter sleeps on past a command    *)
(* that stays in the queue (no lost wakeup).                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, NoThread, UsedCmd, UsedOps, MaxCalls
VARIABLES q, pend, mtx, pc, asleep, calls,
          pushed, popped   \* ghosts: commands accepted and taken, per kind

vars == <<q, pend, mtx, pc, asleep, calls, pushed, popped>>

Q == INSTANCE CmdQueue

Init == /\ Q!QInit /\ mtx = NoThread /\ pc = [t \in Threads |-> "idle"]
        /\ asleep = {} /\ calls = 0
        /\ pushed = [c \in Q!Cmd |-> 0] /\ popped = [c \in Q!Cmd |-> 0]

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Ghost == /\ pushed' = IF Len(q') > Len(q)
                      THEN LET c == IF q # <<>> /\ q' = Append(q, q'[Len(q')]) THEN q'[Len(q')] ELSE Head(q')
                           IN [pushed EXCEPT ![c] = @ + 1]
                      ELSE pushed
         /\ popped' = IF Len(q') < Len(q) THEN [popped EXCEPT ![Head(q)] = @ + 1] ELSE popped

Invoke(t) == /\ pc[t] = "idle" /\ calls < MaxCalls
             /\ \E op \in UsedOps, a \in UsedCmd : Q!Call(t, op, a)
             /\ calls' = calls + 1 /\ Goto(t, "lock")
             /\ UNCHANGED <<mtx, asleep, pushed, popped>>
Lock(t) == /\ pc[t] = "lock" /\ mtx = NoThread /\ mtx' = t /\ Goto(t, "locked")
           /\ UNCHANGED <<q, pend, asleep, calls, pushed, popped>>
\* inside the critical section: the effect, then release (one step: nothing else can run)
Effect(t) == /\ pc[t] = "locked" /\ (Q!ActionRuns(t) \/ Q!SilentEffect(t))
             /\ mtx' = NoThread
             /\ Goto(t, IF Len(q') > Len(q) THEN "notify" ELSE "return")
             /\ Ghost /\ UNCHANGED <<asleep, calls>>
Sleep(t) == /\ pc[t] = "locked" /\ Q!Blocked(t)
            /\ mtx' = NoThread /\ asleep' = asleep \cup {t} /\ Goto(t, "asleep")
            /\ UNCHANGED <<q, pend, calls, pushed, popped>>
Notify(t) == /\ pc[t] = "notify"
             /\ \/ asleep = {} /\ asleep' = asleep /\ Goto(t, "return")
                \/ \E w \in asleep : /\ asleep' = asleep \ {w}
                                     /\ pc' = [pc EXCEPT ![t] = "return", ![w] = "lock"]
             /\ UNCHANGED <<q, pend, mtx, calls, pushed, popped>>
Spurious(w) == /\ w \in asleep /\ asleep' = asleep \ {w} /\ Goto(w, "lock")
               /\ UNCHANGED <<q, pend, mtx, calls, pushed, popped>>
Return(t) == /\ pc[t] = "return" /\ \E ok \in BOOLEAN, v \in 0..20 : Q!Ret(t, ok, v)
             /\ Goto(t, "idle") /\ UNCHANGED <<mtx, asleep, calls, pushed, popped>>

Next == \E t \in Threads : Invoke(t) \/ Lock(t) \/ Effect(t) \/ Sleep(t) \/ Notify(t)
                           \/ Spurious(t) \/ Return(t)
Fair == \A t \in Threads : /\ SF_vars(Lock(t)) /\ WF_vars(Effect(t)) /\ WF_vars(Sleep(t))
                           /\ WF_vars(Notify(t)) /\ WF_vars(Return(t))
Spec == Init /\ [][Next]_vars /\ Fair

Refines == Q!QSpec
TypeOK == Q!TypeOK
Mutual == \A t, u \in Threads : pc[t] = "locked" /\ pc[u] = "locked" => t = u
InQ(c) == Cardinality({i \in 1..Len(q) : q[i] = c})
\* every accepted command is queued or was taken exactly once
Conservation == \A c \in Q!Cmd : pushed[c] = popped[c] + InQ(c)
\* a waiter does not sleep on for ever while a command stays in the queue
NoLostWakeup == \A t \in Threads : (t \in asleep /\ q # <<>>) ~> (t \notin asleep \/ q = <<>>)
=============================================================================

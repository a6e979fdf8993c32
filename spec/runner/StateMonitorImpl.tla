-------------------------- MODULE StateMonitorImpl --------------------------
(***************************************************************************)
(* The design: one mutex and one condition variable, which every report    *)
(* signals after releasing the mutex. NotifyAll chooses how: with a signal *)
(* to one waiter only, NoWaiterForgotten is violated (this was the defect  *)
(* repaired in the real code).                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, NoThread, Reporter, Reports, NotifyAll, MaxCalls
VARIABLES st, pend, mtx, pc, asleep, n
vars == <<st, pend, mtx, pc, asleep, n>>
M == INSTANCE StateMonitor
Init == M!MInit /\ mtx = NoThread /\ pc = [t \in Threads |-> "idle"] /\ asleep = {} /\ n = 0
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Invoke(t) == /\ pc[t] = "idle" /\ n < MaxCalls /\ n' = n + 1
             /\ IF t = Reporter THEN \E a \in Reports : M!Call(t, "report", a)
                ELSE M!Call(t, "waitfin", 0) \/ M!Call(t, "waitst", 1)
             /\ Goto(t, "lock") /\ UNCHANGED <<mtx, asleep>>
Lock(t) == pc[t] = "lock" /\ mtx = NoThread /\ mtx' = t /\ Goto(t, "in") /\ UNCHANGED <<st, pend, asleep, n>>
Eff(t) == /\ pc[t] = "in" /\ M!Effect(t) /\ mtx' = NoThread
          /\ Goto(t, IF t = Reporter THEN "notify" ELSE "ret") /\ UNCHANGED <<asleep, n>>
Sleep(t) == /\ pc[t] = "in" /\ ~M!CanTakeEffect(t) /\ mtx' = NoThread /\ asleep' = asleep \cup {t}
            /\ Goto(t, "asleep") /\ UNCHANGED <<st, pend, n>>
Notify(t) == /\ pc[t] = "notify"
             /\ \E W \in SUBSET asleep :
                  /\ IF NotifyAll THEN W = asleep ELSE IF asleep = {} THEN W = {} ELSE Cardinality(W) = 1
                  /\ asleep' = asleep \ W
                  /\ pc' = [u \in Threads |-> IF u = t THEN "ret" ELSE IF u \in W THEN "lock" ELSE pc[u]]
             /\ UNCHANGED <<st, pend, mtx, n>>
Wake(t) == /\ t \in asleep /\ asleep' = asleep \ {t} /\ Goto(t, "lock")      \* spurious
           /\ UNCHANGED <<st, pend, mtx, n>>
Timeout(t) == /\ t \in asleep /\ M!Due(t) /\ asleep' = asleep \ {t} /\ Goto(t, "lock") /\ UNCHANGED <<mtx, n>>
Return(t) == /\ pc[t] = "ret" /\ M!RetReport(t) /\ Goto(t, "idle") /\ UNCHANGED <<mtx, asleep, n>>
Next == \E t \in Threads : Invoke(t) \/ Lock(t) \/ Eff(t) \/ Sleep(t) \/ Notify(t) \/ Wake(t) \/ Timeout(t) \/ Return(t)
Fair == \A t \in Threads : /\ SF_vars(Lock(t)) /\ WF_vars(Eff(t)) /\ WF_vars(Sleep(t)) /\ WF_vars(Notify(t)) /\ WF_vars(Return(t))
Spec == Init /\ [][Next]_vars /\ Fair
Refines == M!MSpec
\* nobody sleeps for ever while the job stays finished
NoWaiterForgotten == \A t \in Threads : (pend[t].op = "waitfin" /\ M!Finished(st)) ~> (pend[t].op # "waitfin" \/ ~M!Finished(st))
=============================================================================

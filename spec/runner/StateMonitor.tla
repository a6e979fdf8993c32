---------------------------- MODULE StateMonitor ----------------------------
(***************************************************************************)
(* The latest reported state of a job, and threads that wait for it.       *)
(* Every operation takes effect at one moment between its call and its     *)
(* return: a report replaces the state; a query reads it; a wait for the   *)
(* end takes effect only in a finished state and returns that state; a     *)
(* wait for a given state takes effect either in that state, or, once its  *)
(* time has passed, in another one.                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANT Threads
VARIABLES st,    \* latest reported state
          pend   \* per thread: the operation it is in
mvars == <<st, pend>>

State == 0..6          \* initial paused stepping running succeeded failed halted
Finished(s) == s \in {4, 5, 6}
Ops == {"report", "get", "waitfin", "waitst"}
Idle == [op |-> "idle", a |-> 0, v |-> 0, due |-> FALSE]
MInit == st = 0 /\ pend = [t \in Threads |-> Idle]
TypeOK == st \in State /\ \A t \in Threads : pend[t].op \in Ops \cup {"idle", "done"}

Call(t, op, a) == /\ pend[t].op = "idle"
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, v |-> 0, due |-> FALSE]]
                  /\ UNCHANGED st
Done(t, v) == pend' = [pend EXCEPT ![t] = [op |-> "done", a |-> pend[t].a, v |-> v, due |-> pend[t].due]]
CanTakeEffect(t) == LET p == pend[t] IN
  \/ p.op \in {"report", "get"}
  \/ p.op = "waitfin" /\ Finished(st)
  \/ p.op = "waitst" /\ (st = p.a \/ p.due)
Effect(t) == LET p == pend[t] IN
  /\ CanTakeEffect(t)
  /\ st' = IF p.op = "report" THEN p.a ELSE st
  /\ Done(t, IF p.op = "waitst" THEN (IF st = p.a THEN 1 ELSE 0) ELSE st)
\* the time of a wait with a timeout is up
Due(t) == /\ pend[t].op = "waitst" /\ ~pend[t].due
          /\ pend' = [pend EXCEPT ![t].due = TRUE] /\ UNCHANGED st
Ret(t, v) == /\ pend[t].op = "done" /\ pend[t].v = v
             /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED st
RetReport(t) == /\ pend[t].op = "done" /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED st
MNext == \E t \in Threads : \/ \E op \in Ops, a \in State : Call(t, op, a)
                            \/ Effect(t) \/ Due(t) \/ \E v \in State : Ret(t, v)
                            \/ RetReport(t)
MSpec == MInit /\ [][MNext]_mvars
=============================================================================

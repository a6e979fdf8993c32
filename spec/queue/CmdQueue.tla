------------------------------ MODULE CmdQueue ------------------------------
(***************************************************************************)
(* The job command queue: what its callers may rely on.                    *)
(*                                                                         *)
(* Any number of threads call its operations. Every call takes effect at   *)
(* one instant between its invocation and its return (linearizability);    *)
(* in between those instants nothing else happens to the queue.            *)
(*   push       append at the back                                         *)
(*   prio       "priority push" with an interrupt action: accepted iff the *)
(*              queue is empty or the command is more important than the   *)
(*              one in front; the action runs exactly once, at the instant *)
(*              of acceptance and before the command can be seen           *)
(*   prioN      the same without an action                                 *)
(*   prioX      the same with an action that throws: nothing is queued     *)
(*   pop, wait  remove the front (wait blocks while the queue is empty)    *)
(*   empty,size look                                                       *)
(* Commands are 0..5 in rising importance: start step pause reset halt     *)
(* terminate.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANT Threads
VARIABLES q,      \* queued commands, front first
          pend    \* per thread: what its current call is doing

qvars == <<q, pend>>
Cmd == 0..5
Ops == {"push", "prio", "prioN", "prioX", "pop", "wait", "empty", "size"}

Idle == [st |-> "idle"]
Calling(op, a) == [st |-> "call", op |-> op, a |-> a]
Done(ok, v) == [st |-> "done", ok |-> ok, v |-> v]

QInit == q = <<>> /\ pend = [t \in Threads |-> Idle]

Accepts(a) == IF q = <<>> THEN TRUE ELSE a > Head(q)
Finish(t, ok, v) == pend' = [pend EXCEPT ![t] = Done(ok, v)]
InCall(t, op) == pend[t].st = "call" /\ pend[t].op = op

Call(t, op, a) ==
  /\ pend[t].st = "idle"
  /\ pend' = [pend EXCEPT ![t] = Calling(op, a)]
  /\ UNCHANGED q

Push(t) == InCall(t, "push") /\ q' = Append(q, pend[t].a) /\ Finish(t, TRUE, 0)

\* the instant at which an interrupt action runs
PrioAccept(t) ==
  /\ InCall(t, "prio") /\ Accepts(pend[t].a)
  /\ q' = <<pend[t].a>> \o q
  /\ Finish(t, TRUE, 0)
PrioThrow(t) ==
  /\ InCall(t, "prioX") /\ Accepts(pend[t].a)
  /\ UNCHANGED q
  /\ Finish(t, FALSE, 9)
PrioNoAction(t) ==
  /\ InCall(t, "prioN") /\ Accepts(pend[t].a)
  /\ q' = <<pend[t].a>> \o q
  /\ Finish(t, TRUE, 0)
PrioReject(t) ==
  /\ pend[t].st = "call" /\ pend[t].op \in {"prio", "prioN", "prioX"} /\ ~Accepts(pend[t].a)
  /\ UNCHANGED q
  /\ Finish(t, FALSE, 0)

PopSome(t) ==
  /\ (InCall(t, "pop") \/ InCall(t, "wait")) /\ q # <<>>
  /\ q' = Tail(q)
  /\ Finish(t, TRUE, Head(q))
PopNone(t) == InCall(t, "pop") /\ q = <<>> /\ UNCHANGED q /\ Finish(t, FALSE, 0)

LookEmpty(t) == InCall(t, "empty") /\ UNCHANGED q /\ Finish(t, q = <<>>, 0)
LookSize(t) == InCall(t, "size") /\ UNCHANGED q /\ Finish(t, TRUE, Len(q))

Ret(t, ok, v) ==
  /\ pend[t] = Done(ok, v)
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED q

ActionRuns(t) == PrioAccept(t) \/ PrioThrow(t)
SilentEffect(t) == Push(t) \/ PrioNoAction(t) \/ PrioReject(t) \/ PopSome(t) \/ PopNone(t)
                   \/ LookEmpty(t) \/ LookSize(t)

\* A call may be left waiting only for a command that is not there.
Blocked(t) == InCall(t, "wait") /\ q = <<>>

QNext == \E t \in Threads :
           \/ \E op \in Ops, a \in Cmd : Call(t, op, a)
           \/ ActionRuns(t) \/ SilentEffect(t)
           \/ \E ok \in BOOLEAN, v \in 0..20 : Ret(t, ok, v)
QSpec == QInit /\ [][QNext]_qvars

TypeOK == /\ \A i \in 1..Len(q) : q[i] \in Cmd
          /\ \A t \in Threads : pend[t].st \in {"idle", "call", "done"}
=============================================================================

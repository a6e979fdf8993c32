--------------------------- MODULE CmdQueueTrace ----------------------------
(* Is every recorded execution of the real queue a behaviour of CmdQueue?  *)
EXTENDS CmdQueue, TraceLib

tvars == <<q, pend, tid, l>>
TInit == QInit /\ StartTrace
TNext ==
  \/ Is("call") /\ Call(E.t, E.op, E.a) /\ Consume
  \/ Is("cb") /\ ActionRuns(E.t) /\ Consume
  \/ Is("ret") /\ Ret(E.t, E.ok, E.v) /\ Consume
  \/ Is("stuck") /\ (\A t \in Threads : pend[t].st = "idle" \/ Blocked(t)) /\ UNCHANGED qvars /\ Consume
  \/ Is("end") /\ (\A t \in Threads : pend[t].st = "idle") /\ q = <<>> /\ UNCHANGED qvars /\ Consume
  \/ l <= Len(Events) /\ (\E t \in Threads : SilentEffect(t)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

------------------------- MODULE StateMonitorTrace --------------------------
EXTENDS StateMonitor, TraceLib
tvars == <<st, pend, tid, l>>
TInit == MInit /\ StartTrace
Busy(t) == pend[t].op # "idle"
TNext ==
  \/ Is("call") /\ Call(E.t, E.op, E.a) /\ Consume
  \/ Is("ret") /\ (~E.late => ~pend[E.t].due)
               /\ (IF E.op = "report" THEN RetReport(E.t) ELSE Ret(E.t, E.v)) /\ Consume
  \* everybody who is left is blocked: nobody of them may be able to go on
  \/ Is("stuck") /\ (\A t \in Threads : Busy(t) => pend[t].op = "waitfin" /\ ~CanTakeEffect(t)) /\ UNCHANGED mvars /\ Consume
  \/ Is("end") /\ (\A t \in Threads : ~Busy(t)) /\ UNCHANGED mvars /\ Consume
  \/ More /\ (\E t \in Threads : Effect(t)) /\ Keep
  \* only a wait that is going to return late has its time run out
  \/ More /\ (\E t \in Threads : Due(t)) /\ Keep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

--------------------------- MODULE CallbacksTrace ---------------------------
EXTENDS Callbacks, TraceLib
TInit == CInit /\ StartTrace
TNext == \/ Is("call") /\ Call(E.t, E.c) /\ Consume
         \/ Is("cb") /\ Run(E.t, E.id, E.generic, E.name, E.arg) /\ Consume
         \/ Is("ret") /\ Ret(E.t, E.ok) /\ Consume
         \/ Is("end") /\ (\A t \in Threads : pend[t] = Idle) /\ UNCHANGED cvars /\ Consume
         \/ More /\ (\E t \in Threads : Silent(t)) /\ Keep
TSpec == TInit /\ [][TNext]_<<cvars, tid, l>>
=============================================================================

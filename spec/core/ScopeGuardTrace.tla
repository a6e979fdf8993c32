-------------------------- MODULE ScopeGuardTrace ---------------------------
EXTENDS ScopeGuard, TraceLib
\* the actions observed during the operation
RanNow == ran' = ran \o E.ran
TInit == GInit /\ StartTrace
TNext == \/ Is("n") /\ New(E.x, E.y) /\ RanNow /\ Consume
         \/ Is("e") /\ NewEmpty(E.x) /\ RanNow /\ Consume
         \/ Is("d") /\ Destroy(E.x) /\ RanNow /\ Consume
         \/ Is("v") /\ Valid(E.x) /\ RanNow /\ E.valid = IsValid(E.x) /\ Consume
         \/ Is("m") /\ MoveNew(E.x, E.y) /\ RanNow /\ Consume
         \/ Is("a") /\ Assign(E.x, E.y) /\ RanNow /\ Consume
         \/ Is("s") /\ Swap(E.x, E.y) /\ RanNow /\ Consume
         \/ Is("end") /\ UNCHANGED gvars /\ Consume
TSpec == TInit /\ [][TNext]_<<gvars, tid, l>>
=============================================================================

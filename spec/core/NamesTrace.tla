----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, TraceLib
TInit == StartTrace
TNext ==
  /\ Consume
  /\ \/ /\ Is("status")
        /\ E.name = At(StatusName, E.v, "Unknown status")
        /\ E.finished = Finished(E.v) /\ E.needs = Needs(E.v)
        /\ E.ready = Ready(E.v) /\ E.executing = Executing(E.v)
     \/ Is("state") /\ E.name = At(StateName, E.v, "Unknown JobState") /\ E.finished = FinishedState(E.v)
     \/ Is("severity") /\ E.name = At(SeverityName, E.v, "UNKNOWN")
     \/ Is("from") /\ E.v = FromName(E.name)
     \/ Is("le") /\ E.r = (E.a <= E.b)
     \/ Is("end")
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================

---------------------------- MODULE FileVarsTrace ----------------------------
EXTENDS FileVars, TraceLib
tvars == <<fvars, tid, l>>
TInit == StartTrace /\ FInit(Traces[tid].dirs)
Told == notes' = E.notes
ToldAll == Len(notes') = Len(E.notes) /\ \A k \in 1..Len(notes') : \E i \in 1..Len(E.notes) : E.notes[i] = notes'[k]
TNext ==
  /\ \/ Is("add") /\ Add(E.w, E.n, E.f)
     \/ Is("setup") /\ Setup(E.w) /\ ToldAll
     \/ Is("teardown") /\ Teardown(E.w) /\ Told
     \/ Is("get") /\ Get /\ Told /\ LET r == Read(E.w, E.n, E.p, E.target) IN E.ok = r.ok /\ E.v = r.v
     \/ Is("set") /\ Set(E.w, E.n, E.p, E.v, E.ok) /\ Told
     \/ Is("avail") /\ Get /\ Told /\ E.ok = Available(E.w, E.n)
     \/ Is("reset") /\ Reset(E.w, E.n, E.ok) /\ Told
     \/ Is("change") /\ Change(E.at, E.kind, E.v)
     \/ Is("new") /\ New(E.w)
     \/ Is("look") /\ Get /\ E.c = disk[E.at]
     \/ Is("end") /\ Get
  /\ Consume
TSpec == TInit /\ [][TNext]_tvars
==============================================================================

------------------------------ MODULE ConsoleTrace ------------------------------
EXTENDS Console, TraceLib
tvars == <<lines, tid, l>>
TInit == StartTrace /\ CInit(Traces[tid].lines)
Shown == \E k \in 1..Len(E.out) : E.out[k] = E.text
TNext ==
  /\ \/ /\ Is("value") /\ Value(E.t, E.r)
        /\ (E.errs = IF E.r.ok THEN 0 ELSE 1) /\ E.same   \* a value of the type that was asked for
        /\ Takes(E.t) => E.asked         \* the description and the type are shown
     \/ /\ Is("choice") /\ Choose(Len(E.options), E.c)
        /\ E.errs = IF E.c >= 0 THEN 0 ELSE 1
        /\ Listed(E.shown, E.options) /\ (E.text = "" \/ Shown)
     \/ Is("invalid") /\ UNCHANGED lines /\ ~E.ok
     \/ Is("message") /\ UNCHANGED lines /\ E.out = <<E.text>> /\ E.errs = 0
     \/ Is("put") /\ UNCHANGED lines /\ E.ok /\ E.errs = 0 /\ (E.text = "" \/ E.out[1] = E.text) /\ E.out[Len(E.out)] = E.val
     \* what is logged is passed on when it is not less severe than the limit
     \/ Is("log") /\ UNCHANGED lines /\ E.logged = (IF E.sev <= E.max THEN <<[sev |-> E.sev, s |-> E.text]>> ELSE <<>>) /\ E.out = <<>>
     \/ Is("note") /\ UNCHANGED lines /\ E.logged = (IF E.max >= 6 THEN 1 ELSE 0) /\ E.out = <<>>
     \/ Is("end") /\ UNCHANGED lines
  /\ Consume
TSpec == TInit /\ [][TNext]_tvars
================================================================================

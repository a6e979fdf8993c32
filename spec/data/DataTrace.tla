------------------------------ MODULE DataTrace ------------------------------
EXTENDS Data, TraceLib
tvars == <<dvars, tid, l>>
TInit == StartTrace /\ main = Traces[tid].mem /\ sub = Traces[tid].sub /\ ini = [n \in DOMAIN main |-> main[n].val]
Same(M, seen) == DOMAIN M = DOMAIN seen /\ \A n \in DOMAIN M : M[n].val = seen[n]
TNext == \/ Is("exec") /\ DExec(E.i, E.ok, E.out) /\ Same(main', E.main) /\ Same(sub', E.sub) /\ Consume
         \/ Is("end") /\ UNCHANGED dvars /\ Consume
TSpec == TInit /\ [][TNext]_tvars
==============================================================================

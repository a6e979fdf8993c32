---------------------------- MODULE ProgramTrace ----------------------------
EXTENDS Program, TraceLib
VARIABLES left, exit
tvars == <<avars, left, exit, tid, l>>
T == Traces[tid]
TInit ==
  /\ StartTrace /\ defs = <<>> /\ cons = <<>> /\ attrs = <<>>
  /\ LET p == IF T.there /\ T.wf /\ ReadOK(T.x) THEN TLCEval(Read(T.x)) ELSE NoProc
         r == TLCEval(Run(T.o, [main |-> T.main, dir |-> T.dir, p |-> p, files |-> T.files, tfiles |-> T.tfiles], T.there, T.wf, T.x, T.typed)) IN
     /\ left = r.out /\ exit = r.exit
     /\ (Diag => PrintT(<<"RUN", r>>))
TNext ==
  /\ \/ /\ Is("line") /\ left # <<>> /\ Head(left) = E.x
        /\ left' = Tail(left) /\ UNCHANGED exit
     \/ /\ Is("exit") /\ left = <<>> /\ (exit >= 0 => E.n = exit)
        /\ UNCHANGED <<left, exit>>
  /\ UNCHANGED avars
  /\ Consume
TSpec == TInit /\ [][TNext]_tvars
==============================================================================

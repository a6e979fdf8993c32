--------------------------- MODULE PreambleTrace ----------------------------
EXTENDS Preamble, TraceLib
TInit == PInit /\ StartTrace
TNext ==
  /\ Consume
  /\ \/ Is("plugin") /\ AddPlugin(E.s, E.p)
     \/ Is("type") /\ AddType(E.s, E.m, E.x)
     \/ Is("copy") /\ Copy(E.d, E.s)
     \/ Is("clear") /\ Clear(E.s)
     \/ Is("look") /\ plugins[E.s] = E.plugins /\ types[E.s] = E.types /\ UNCHANGED pvars
     \/ Is("newbp") /\ NewBp(E.s, E.i)
     \/ Is("setbp") /\ SetBp(E.s, E.st)
     \/ Is("copybp") /\ CopyBp(E.d, E.s)
     \/ Is("lookbp") /\ bp[E.s].i = E.i /\ bp[E.s].st = E.st /\ UNCHANGED pvars
     \/ Is("end") /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_<<pvars, tid, l>>
=============================================================================

------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Common part of the trace specifications. A batch of recorded executions *)
(* is read from a file with one JSON object per line; every execution is   *)
(* one initial state. `l` is the next event to explain. When the last      *)
(* event of trace number tid has been explained, <<"ACC", tid>> is printed;*)
(* a trace whose number is never printed is not a behaviour of the         *)
(* specification.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Diag == IOEnv.DIAG = "1"
Events == Traces[tid].ev
E == Events[l]
More == l <= Len(Events)
Is(k) == l <= Len(Events) /\ E.k = k
Consume == /\ l' = l + 1 /\ UNCHANGED tid
           /\ (Diag => PrintT(<<"AT", tid, l>>))
           /\ (l = Len(Events) => PrintT(<<"ACC", tid>>))
Keep == UNCHANGED <<tid, l>>
StartTrace == tid \in 1..Len(Traces) /\ l = 1
=============================================================================

------------------------------ MODULE Preamble ------------------------------
(***************************************************************************)
(* Procedure preambles in numbered slots, each an ordered list of plugin   *)
(* paths and one of type registrations; copies are independent. Breakpoint *)
(* objects: the instruction they were made for, and a status that is set   *)
(* from the start.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Slots
VARIABLES plugins, types, bp
pvars == <<plugins, types, bp>>
PInit == /\ plugins = [s \in Slots |-> <<>>] /\ types = [s \in Slots |-> <<>>]
         /\ bp = [s \in Slots |-> [i |-> 0, st |-> 0]]
AddPlugin(s, p) == plugins' = [plugins EXCEPT ![s] = Append(@, p)] /\ UNCHANGED <<types, bp>>
AddType(s, m, x) == types' = [types EXCEPT ![s] = Append(@, [m |-> m, x |-> x])] /\ UNCHANGED <<plugins, bp>>
Copy(d, s) == /\ plugins' = [plugins EXCEPT ![d] = plugins[s]]
              /\ types' = [types EXCEPT ![d] = types[s]] /\ UNCHANGED bp
Clear(s) == /\ plugins' = [plugins EXCEPT ![s] = <<>>]
            /\ types' = [types EXCEPT ![s] = <<>>] /\ UNCHANGED bp
NewBp(s, i) == bp' = [bp EXCEPT ![s] = [i |-> i, st |-> 0]] /\ UNCHANGED <<plugins, types>>
SetBp(s, st) == bp' = [bp EXCEPT ![s].st = st] /\ UNCHANGED <<plugins, types>>
CopyBp(d, s) == bp' = [bp EXCEPT ![d] = bp[s]] /\ UNCHANGED <<plugins, types>>
\* additions never disturb what is there
Grows == [][\A s \in Slots : \/ \E t \in Slots : plugins'[s] = plugins[t]
                             \/ plugins'[s] = <<>>
                             \/ SubSeq(plugins'[s], 1, Len(plugins[s])) = plugins[s]]_pvars
=============================================================================

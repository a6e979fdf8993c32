---------------------------- MODULE CallbacksMC -----------------------------
(* Exhaustive check of the callback manager's design, small constants.     *)
EXTENDS Callbacks, FiniteSets
CONSTANT MaxCalls
VARIABLES calls,    \* number of calls so far
          removed   \* ghost: per listener, callbacks whose removal has returned
mvars == <<cvars, calls, removed>>
MInit == CInit /\ calls = 0 /\ removed = {}
CallRec == [op : {"regG"}, id : {calls}, lis : {1, 2}, x : {FALSE}]
           \cup [op : {"regN"}, id : {calls}, lis : {1, 2}, x : BOOLEAN, name : {"a", "b"}]
           \cup [op : {"unreg"}, lis : {1}] \cup [op : {"exec"}, name : {"a"}, arg : {calls}]
Registered == {gen[i].id : i \in 1..Len(gen)} \cup {named[i].id : i \in 1..Len(named)}
MNext == \E t \in Threads :
  \/ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED removed /\ \E c \in CallRec : Call(t, c)
  \/ Silent(t) /\ UNCHANGED calls /\ removed' = removed \cup (Registered \ Registered')
  \/ UNCHANGED <<calls, removed>>
     /\ \/ \E ok \in BOOLEAN : Ret(t, ok)
        \/ pend[t].st = "exec" /\ \E id \in 0..MaxCalls, g \in BOOLEAN, n \in {"a", ""} : Run(t, id, g, n, pend[t].c.arg)
MSpec == MInit /\ [][MNext]_mvars
\* a callback that has been removed is never about to run
NoRunAfterRemoval == \A t \in Threads : pend[t].st = "exec" =>
   /\ \A i \in 1..Len(pend[t].g) : pend[t].g[i].id \notin removed
   /\ \A i \in 1..Len(pend[t].n) : pend[t].n[i].id \notin removed
NoDuplicates == Cardinality(Registered) = Len(gen) + Len(named)
=============================================================================

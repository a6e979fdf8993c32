----------------------------- MODULE ScopeGuard -----------------------------
(***************************************************************************)
(* Scope guards living in numbered slots. A slot holds no guard ("gone"),  *)
(* a guard without action (0), or a guard that owns action number a > 0.   *)
(* Every operation says which actions run during it, in order.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Slots, Actions
VARIABLES g,     \* g[s]: "gone", or [a |-> action or 0]
          used,  \* actions that were handed to a guard
          ran    \* actions that have run, in order

gvars == <<g, used, ran>>
Gone == [a |-> -1]
Empty == [a |-> 0]
Own(a) == [a |-> a]
Alive(s) == g[s] # Gone

GInit == g = [s \in Slots |-> Gone] /\ used = {} /\ ran = <<>>

Runs(x) == IF x.a > 0 THEN <<x.a>> ELSE <<>>

\* what runs during an operation is ran' minus ran
New(s, a) == /\ ~Alive(s) /\ a \notin used
             /\ g' = [g EXCEPT ![s] = Own(a)] /\ used' = used \cup {a} /\ UNCHANGED ran
NewEmpty(s) == ~Alive(s) /\ g' = [g EXCEPT ![s] = Empty] /\ UNCHANGED <<used, ran>>
MoveNew(d, s) == /\ ~Alive(d) /\ Alive(s)
                 /\ g' = [g EXCEPT ![d] = g[s], ![s] = Empty] /\ UNCHANGED <<used, ran>>
\* the action the target owned runs; moving onto itself changes nothing
Assign(d, s) == /\ Alive(d) /\ Alive(s)
                /\ IF d = s THEN UNCHANGED gvars
                   ELSE /\ g' = [g EXCEPT ![d] = g[s], ![s] = Empty]
                        /\ ran' = ran \o Runs(g[d]) /\ UNCHANGED used
Swap(d, s) == /\ Alive(d) /\ Alive(s)
              /\ g' = [g EXCEPT ![d] = g[s], ![s] = g[d]] /\ UNCHANGED <<used, ran>>
Destroy(s) == /\ Alive(s) /\ g' = [g EXCEPT ![s] = Gone] /\ ran' = ran \o Runs(g[s]) /\ UNCHANGED used
Valid(s) == Alive(s) /\ UNCHANGED gvars
IsValid(s) == g[s].a > 0

GNext == \E s \in Slots :
           \/ \E a \in Actions : New(s, a)
           \/ NewEmpty(s) \/ Destroy(s) \/ Valid(s)
           \/ \E d \in Slots : MoveNew(d, s) \/ Assign(d, s) \/ Swap(d, s)

Ran == {ran[i] : i \in 1..Len(ran)}
\* an action is owned by exactly one guard or has run exactly once
OwnedOnce == \A a \in used : IF a \in Ran THEN \A s \in Slots : g[s].a # a
                             ELSE \E s \in Slots : g[s].a = a /\ \A t \in Slots \ {s} : g[t].a # a
RunOnce == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
NoneLost == (\A s \in Slots : ~Alive(s)) => Ran = used
=============================================================================

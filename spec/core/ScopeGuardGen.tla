--------------------------- MODULE ScopeGuardGen ----------------------------
(* ScopeGuard with the last operation in the state: the state graph of     *)
(* this module is turned into test programs that cover its every edge.     *)
EXTENDS ScopeGuard, TLC
VARIABLE op
Init == GInit /\ op = ""
S(x) == ToString(x)
\* actions are handed out in order: it does not matter which is which
NextA == {a \in Actions : a \notin used /\ \A b \in Actions : b < a => b \in used}
Next == \E s \in Slots :
          \/ \E a \in NextA : New(s, a) /\ op' = "n" \o S(s) \o S(a)
          \/ NewEmpty(s) /\ op' = "e" \o S(s) \o S(0)
          \/ Destroy(s) /\ op' = "d" \o S(s) \o S(0)
          \/ Valid(s) /\ op' = "v" \o S(s) \o S(0)
          \/ \E d \in Slots : \/ MoveNew(d, s) /\ op' = "m" \o S(d) \o S(s)
                              \/ Assign(d, s) /\ op' = "a" \o S(d) \o S(s)
                              \/ Swap(d, s) /\ op' = "s" \o S(d) \o S(s)
Spec == Init /\ [][Next]_<<gvars, op>>
=============================================================================

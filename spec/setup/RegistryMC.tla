------------------------------ MODULE RegistryMC ------------------------------
(* Two registries, all histories: what was made once is made ever after, and  *)
(* what is known is what was registered.                                       *)
EXTENDS Registry
CONSTANTS Kinds, Makers
VARIABLES first,   \* first[r][k]: who registered k first; "" nobody
          asked    \* the last question and its answer: <<r, kind, ok, what>>
vars == <<reg, first, asked>>
R == 1..2
Init == reg = [r \in R |-> Empty] /\ first = [r \in R |-> [k \in Kinds |-> ""]] /\ asked = <<>>
DoRegister == \E r \in R, k \in Kinds, m \in Makers, ok \in BOOLEAN :
  /\ Register(r, k, m, ok)
  /\ first' = IF first[r][k] = "" THEN [first EXCEPT ![r][k] = m] ELSE first
  /\ asked' = <<>>
DoCreate == \E r \in R, k \in Kinds, m \in Makers \union {""}, ok \in BOOLEAN :
  Create(r, k, ok, m) /\ (~ok => m = "") /\ asked' = <<r, k, ok, m>> /\ UNCHANGED first
DoCopy == \E r, s \in R : Copied(r, s) /\ first' = [first EXCEPT ![r] = first[s]] /\ asked' = <<>>
Next == DoRegister \/ DoCreate \/ DoCopy
Spec == Init /\ [][Next]_vars
Right == asked # <<>> =>
  /\ asked[3] <=> first[asked[1]][asked[2]] # ""
  /\ asked[4] = first[asked[1]][asked[2]]
\* nothing is ever forgotten or replaced, except by a copy
Stable == [][DoRegister => \A r \in R : \A k \in DOMAIN reg[r] : k \in DOMAIN (reg')[r] /\ (reg')[r][k] = reg[r][k]]_vars
================================================================================

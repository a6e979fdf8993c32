------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Registries of the kinds of instructions and variables: what makes       *)
(* something of a kind. The first registration counts; a second one and    *)
(* everything about unknown kinds is refused and changes nothing. Copies   *)
(* are independent.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE reg   \* reg[r]: a function from kinds to what is made
Empty == [k \in {} |-> ""]
Register(r, kind, what, ok) ==
  /\ ok <=> kind \notin DOMAIN reg[r]
  /\ reg' = IF ok THEN [reg EXCEPT ![r] = [k \in DOMAIN reg[r] \union {kind} |-> IF k = kind THEN what ELSE reg[r][k]]] ELSE reg
Create(r, kind, ok, what) ==
  /\ ok <=> kind \in DOMAIN reg[r]
  /\ ok => what = reg[r][kind]
  /\ UNCHANGED reg
Known(r, kind, ok) == (ok <=> kind \in DOMAIN reg[r]) /\ UNCHANGED reg
Names(r, names) ==
  /\ Len(names) = Cardinality(DOMAIN reg[r])
  /\ {names[k] : k \in 1..Len(names)} = DOMAIN reg[r]
  /\ UNCHANGED reg
Copied(r, s) == reg' = [reg EXCEPT ![r] = reg[s]]
================================================================================

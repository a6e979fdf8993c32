------------------------------ MODULE FileVarsMC -----------------------------
(***************************************************************************)
(* Two workspaces in different directories, three variables, two of them   *)
(* on one file; any operations in any order. What every file should hold   *)
(* is kept separately: what was last written or put there.                 *)
(***************************************************************************)
EXTENDS FileVars
CONSTANTS MaxOps
VARIABLES count, last, owner     \* operations; what was last stored at a place; by whom
mvars == <<fvars, count, last, owner>>
Pair(i) == [EmptyV EXCEPT !.t = "struct", !.n = <<"a", "b">>, !.m = <<IntV("uint8", i), Str("x")>>]
Values0 == {IntV("int32", 1), IntV("int32", 300), Str("x"), Pair(1)}
A == <<[n |-> "a", i |-> 0]>>
B == <<[n |-> "zz", i |-> 0]>>
MInit == /\ disk = [p \in Places |-> [k |-> IF p = "d1" THEN "dir" ELSE IF p = "d1/no/f" THEN "no" ELSE "none", v |-> EmptyV]]
         /\ W = [w \in {"P", "Q"} |-> IF w = "P" THEN [dir |-> "d1", up |-> FALSE, vs |-> <<[n |-> "v", f |-> "f.json"], [n |-> "w", f |-> "no/f.json"]>>]
                                               ELSE [dir |-> "d2", up |-> FALSE, vs |-> <<[n |-> "v", f |-> "f.json"], [n |-> "u", f |-> "../d1/f.json"]>>]]
         /\ notes = <<>> /\ count = 0 /\ last = [p \in Places |-> EmptyV] /\ owner = [p \in Places |-> "nobody"]
Names == {"u", "v", "w"}
Note1 == UNCHANGED <<last, owner>>
DoSet == \E w \in {"P", "Q"}, n \in Names, p \in {<<>>, A, B}, v \in Values0, ok \in BOOLEAN :
           /\ Set(w, n, p, v, ok)
           /\ last' = IF ok THEN [last EXCEPT ![At(w, n)] = disk'[At(w, n)].v] ELSE last
           /\ owner' = IF ok THEN [owner EXCEPT ![At(w, n)] = "var"] ELSE owner
DoChange == \E p \in {"d1/f", "d2/f"}, k \in {"none", "bad", "val"} :
           /\ Change(p, k, IF k = "val" THEN IntV("int32", 7) ELSE EmptyV) /\ owner' = [owner EXCEPT ![p] = IF k = "val" THEN "other" ELSE "nobody"]
           /\ last' = [last EXCEPT ![p] = IF k = "val" THEN IntV("int32", 7) ELSE EmptyV]
DoControl == \E w \in {"P", "Q"} : (Setup(w) \/ Teardown(w)) /\ Note1
DoReset == \E w \in {"P", "Q"}, n \in Names : Reset(w, n, Has(w, n)) /\ Note1
MNext == count < MaxOps /\ count' = count + 1 /\ (DoSet \/ DoChange \/ DoControl \/ DoReset)
Spec == MInit /\ [][MNext]_mvars

\* any variable on a file reads what was stored there last, whoever did it, whatever happened to its workspace in between
ReadsLast == \A w \in {"P", "Q"}, n \in Names :
  W[w].up /\ Has(w, n) => LET r == Read(w, n, <<>>, EmptyV) p == At(w, n) IN
    /\ r.ok = (owner[p] # "nobody") /\ (r.ok => r.v = last[p]) /\ r.ok = Available(w, n)
\* a variable of a workspace that is not set up neither reads nor writes
Closed == \A w \in {"P", "Q"}, n \in Names : ~W[w].up => ~Read(w, n, <<>>, EmptyV).ok /\ ~Write(w, n, <<>>, Str("x")).ok /\ ~Available(w, n)
\* writing changes one file, or nothing and says so
OneFile == [][\A p \in Places : disk'[p] # disk[p] => \A q \in Places \ {p} : disk'[q] = disk[q]]_mvars
Noticed == [][(\E p \in Places : disk'[p] # disk[p] /\ owner'[p] = "var") => Len(notes') = 1 /\ notes'[1].c /\ \E p \in Places : disk'[p].v = notes'[1].v]_mvars
\* a field is written without touching the others
KeepsRest == [][\A p \in Places : disk[p].k = "val" /\ disk[p].v.t = "struct" /\ disk'[p].k = "val" /\ disk'[p].v.t = "struct" => disk'[p].v.n = disk[p].v.n /\ disk'[p].v.m[2] = disk[p].v.m[2]]_mvars
===============================================================================

------------------------------ MODULE FileVars -------------------------------
(***************************************************************************)
(* File variables: workspaces whose variables are the contents of files.   *)
(*                                                                         *)
(* disk: what is at each place: [k, v]. k is "none" (nothing), "val" (a    *)
(* file that holds the value v), "bad" (a file that holds something else), *)
(* "dir" (a directory) or "no" (a place in a directory that is not there). *)
(* W: for each workspace where it is (a directory), whether it is set up   *)
(* and the sequence of its variables with the texts that name their files. *)
(* notes: what the operation that is going on has to report, in order.     *)
(***************************************************************************)
EXTENDS Values
VARIABLES disk, W, notes
fvars == <<disk, W, notes>>
\* where a text leads from a directory
Places == {"g", "d1/f", "d1/h", "d2/f", "d2/h", "d1", "d1/no/f", "abs"}
Place(dir, s) ==
  CASE s = "ABS/abs" -> "abs"
    [] dir = "" -> CASE s = "g.json" -> "g" [] s = "d1/f.json" -> "d1/f" [] s = "d2/f.json" -> "d2/f" [] s = "d1" -> "d1" [] s = "d1/no/f.json" -> "d1/no/f" [] OTHER -> "d2/h"
    [] dir = "d1" -> CASE s = "f.json" -> "d1/f" [] s = "h.json" -> "d1/h" [] s = "../g.json" -> "g" [] s = "../d1" -> "d1" [] s = "no/f.json" -> "d1/no/f" [] OTHER -> "d2/h"
    [] OTHER -> CASE s = "f.json" -> "d2/f" [] s = "h.json" -> "d2/h" [] s = "../g.json" -> "g" [] s = "../d1/f.json" -> "d1/f" [] s = "../d1" -> "d1" [] OTHER -> "d2/h"
At(w, name) == LET k == CHOOSE k \in 1..Len(W[w].vs) : W[w].vs[k].n = name IN Place(W[w].dir, W[w].vs[k].f)
Has(w, name) == \E k \in 1..Len(W[w].vs) : W[w].vs[k].n = name
Note(name, conn, v) == [n |-> name, c |-> conn, v |-> v]
\* what a variable says of itself when it is set up
Hello(w, name) == LET c == disk[At(w, name)] IN IF c.k = "val" THEN Note(name, TRUE, c.v) ELSE Note(name, FALSE, EmptyV)
FInit(dirs) == /\ disk = [p \in Places |-> [k |-> IF p = "d1" THEN "dir" ELSE IF p = "d1/no/f" THEN "no" ELSE "none", v |-> EmptyV]]
               /\ W = [w \in DOMAIN dirs |-> [dir |-> dirs[w], up |-> FALSE, vs |-> <<>>]] /\ notes = <<>>

Add(w, name, f) == /\ ~W[w].up /\ ~Has(w, name)
                   /\ W' = [W EXCEPT ![w].vs = Append(@, [n |-> name, f |-> f])] /\ notes' = <<>> /\ UNCHANGED disk
\* every variable reports once (the order is open)
Setup(w) == /\ notes' = (IF W[w].up THEN <<>> ELSE [k \in 1..Len(W[w].vs) |-> Hello(w, W[w].vs[k].n)])
            /\ W' = [W EXCEPT ![w].up = TRUE] /\ UNCHANGED disk
Teardown(w) == W' = [W EXCEPT ![w].up = FALSE] /\ notes' = <<>> /\ UNCHANGED disk
\* the workspace is replaced by a new one
New(w) == W' = [W EXCEPT ![w].up = FALSE, ![w].vs = <<>>] /\ notes' = <<>> /\ UNCHANGED disk
\* reading: [ok, v]
Read(w, name, path, target) ==
  IF ~W[w].up \/ ~Has(w, name) THEN Fail(target)
  ELSE LET c == disk[At(w, name)] IN
       IF c.k # "val" THEN Fail(target)
       ELSE IF path # <<>> /\ ~HasField(c.v, path) THEN Fail(target)
       ELSE AssignIfEmptyOrConvert(target, IF path = <<>> THEN c.v ELSE Field(c.v, path))
Get == notes' = <<>> /\ UNCHANGED <<disk, W>>
\* writing: [ok, v], v is what is then in the file
Write(w, name, path, v) ==
  IF ~W[w].up \/ ~Has(w, name) THEN Fail(EmptyV)
  ELSE LET c == disk[At(w, name)] IN
       IF c.k \in {"dir", "no"} THEN Fail(EmptyV)
       ELSE IF path = <<>> THEN Done(v)
       ELSE IF c.k # "val" THEN Fail(EmptyV) ELSE IF ~HasField(c.v, path) THEN Fail(EmptyV)
       ELSE SetField(c.v, path, v, FALSE)
Set(w, name, path, v, ok) ==
  LET r == Write(w, name, path, v) IN
  /\ ok = r.ok
  /\ disk' = IF ok THEN [disk EXCEPT ![At(w, name)] = [k |-> "val", v |-> r.v]] ELSE disk
  /\ notes' = IF ok THEN <<Note(name, TRUE, r.v)>> ELSE <<>>
  /\ UNCHANGED W
Available(w, name) == W[w].up /\ Has(w, name) /\ disk[At(w, name)].k = "val"
Reset(w, name, ok) ==
  /\ W[w].up
  /\ ok = Has(w, name)
  /\ notes' = (IF ok THEN <<Hello(w, name)>> ELSE <<>>) /\ UNCHANGED <<disk, W>>
\* somebody else does something to a file
Change(p, k, v) == /\ disk[p].k \notin {"dir", "no"} /\ disk' = [disk EXCEPT ![p] = [k |-> k, v |-> v]] /\ notes' = <<>> /\ UNCHANGED W
===============================================================================

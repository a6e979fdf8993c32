-------------------------------- MODULE Data ---------------------------------
(***************************************************************************)
(* Instructions that compute with variables or show them to the user.      *)
(* main and sub are the variables of the procedure and of another one      *)
(* whose variables can be copied from and to; ini and sini hold what they  *)
(* are reset to. An instruction is a record                                *)
(*   op     its type                                                       *)
(*   a, b   variables (or fields) it refers to: [n, p] name and path       *)
(*   t, u   texts: [k |-> "none"], [k |-> "lit", s] or [k |-> "var", s]    *)
(*   put    what the user interface answers when it is given a value       *)
(***************************************************************************)
EXTENDS Memory, TLC
VARIABLES main, sub, ini
dvars == <<main, sub, ini>>
\* the largest numbers of 32 and 64 bit types
Huge == 2000000000

Words == <<"", "!", "a text", "info", "no", "other", "some text", "warning", "x", "yes">>
WordAt(s) == CHOOSE k \in 1..Len(Words) : Words[k] = s
LessTable == [p \in {Words[k] : k \in 1..Len(Words)} \X {Words[k] : k \in 1..Len(Words)} |-> WordAt(p[1]) < WordAt(p[2])]
CmpV(v, w) == Cmp(v, w, LessTable)

\* one more or less: integers wrap around at the ends of their range
Wrap(t, x) ==
  CASE t \in {"char8", "int8", "uint8", "int16", "uint16"} ->
         IF x > 4 * High(t) THEN 4 * Low(t) ELSE IF x < 4 * Low(t) THEN 4 * High(t) ELSE x
    [] t \in {"uint32", "uint64"} -> IF x < 0 THEN Huge ELSE x
    [] OTHER -> x
Step(v, d) == IF v.t \in NumTypes \ {"bool"} THEN Done([v EXCEPT !.x = Wrap(v.t, v.x + 4 * d)]) ELSE Fail(v)

Get(M, r) == MGet(M, r.n, r.p, EmptyV)
Text(t, default) ==
  CASE t.k = "none" -> [ok |-> TRUE, s |-> default]
    [] t.k = "lit" -> [ok |-> TRUE, s |-> t.s]
    [] OTHER -> LET r == MGet(main, t.s, <<>>, EmptyV) IN [ok |-> r.ok /\ r.v.t = "string", s |-> r.v.s]

\* the text of a value; "~": not defined here (fractions)
RECURSIVE Shown(_), ShownList(_, _, _)
Shown(v) ==
  CASE v.t = "bool" -> IF v.x = 0 THEN "false" ELSE "true"
    [] v.t \in IntTypes -> ToString(v.x \div 4)
    [] v.t = "string" -> "\"" \o v.s \o "\""
    [] v.t = "struct" -> "{" \o ShownList(v.n, v.m, 1) \o "}"
    [] v.t = "array" -> "[" \o ShownList(<<>>, v.m, 1) \o "]"
    [] OTHER -> "~"
ShownList(n, m, k) ==
  IF k > Len(m) THEN ""
  ELSE (IF k = 1 THEN "" ELSE ",") \o (IF n = <<>> THEN "" ELSE "\"" \o n[k] \o "\":") \o Shown(m[k]) \o ShownList(n, m, k + 1)
RECURSIVE HasFraction(_)
HasFraction(v) == v.t \in FloatTypes \/ \E k \in 1..Len(v.m) : HasFraction(v.m[k])

(***************************************************************************)
(* What an instruction does: [ok, main, sub, out], where out is what the   *)
(* user sees: a sequence of [to, sev, s, v].                               *)
(***************************************************************************)
Out(to, sev, s, v) == [to |-> to, sev |-> sev, s |-> s, v |-> v]
Failure == [ok |-> FALSE, main |-> main, sub |-> sub, out |-> <<>>]
Result(b) == [Failure EXCEPT !.ok = b]
\* v is written to r of the main variables
Write(r, v) == LET w == MSet(main, r.n, r.p, v) IN
               IF w.ok THEN [Failure EXCEPT !.ok = TRUE, !.main = MWrite(main, r.n, r.p, v)] ELSE Failure
Severities == <<"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace">>
Sev(s) == IF \E k \in 1..Len(Severities) : Severities[k] = s THEN (CHOOSE k \in 1..Len(Severities) : Severities[k] = s) - 1 ELSE 0 - 1
Effect(i) ==
  LET a == Get(main, i.a) b == Get(main, i.b) both == a.ok /\ b.ok IN
  CASE i.op = "Copy" -> IF a.ok THEN Write(i.b, a.v) ELSE Failure
    [] i.op = "CopyFrom" -> LET x == Get(sub, i.a) IN IF x.ok THEN Write(i.b, x.v) ELSE Failure
    [] i.op = "CopyTo" -> IF a.ok /\ MSet(sub, i.b.n, i.b.p, a.v).ok
                          THEN [Failure EXCEPT !.ok = TRUE, !.sub = MWrite(sub, i.b.n, i.b.p, a.v)] ELSE Failure
    [] i.op \in {"Increment", "Decrement"} ->
         IF a.ok THEN LET w == Step(a.v, IF i.op = "Increment" THEN 1 ELSE 0 - 1) IN IF w.ok THEN Write(i.a, w.v) ELSE Failure
         ELSE Failure
    [] i.op = "Condition" -> Result(a.ok /\ a.v.t \in NumTypes /\ a.v.x # 0)
    [] i.op = "Equals" -> Result(both /\ Equal(a.v, b.v))
    [] i.op = "LessThan" -> Result(both /\ CmpV(a.v, b.v) = "L")
    [] i.op = "LessThanOrEqual" -> Result(both /\ CmpV(a.v, b.v) \in {"L", "E"})
    [] i.op = "GreaterThan" -> Result(both /\ CmpV(a.v, b.v) = "G")
    [] i.op = "GreaterThanOrEqual" -> Result(both /\ CmpV(a.v, b.v) \in {"G", "E"})
    [] i.op = "AddMember" ->
         IF both /\ i.t.s # "" /\ b.v.t = "struct" /\ ~(\E k \in 1..Len(b.v.n) : b.v.n[k] = i.t.s)
         THEN Write(i.b, [b.v EXCEPT !.n = Append(@, i.t.s), !.m = Append(@, a.v)]) ELSE Failure
    [] i.op = "AddElement" ->
         IF both /\ b.v.t = "array" /\ b.v.e[1] = Default(a.v) THEN Write(i.b, [b.v EXCEPT !.m = Append(@, a.v)]) ELSE Failure
    [] i.op = "ResetVariable" ->
         IF i.a.p = <<>> /\ i.a.n \in DOMAIN main THEN [Failure EXCEPT !.ok = TRUE, !.main = [main EXCEPT ![i.a.n].val = ini[i.a.n]]] ELSE Failure
    [] i.op = "VarExists" -> Result(a.ok)
    [] i.op = "Output" -> LET d == Text(i.t, "") IN
         IF a.ok /\ d.ok THEN [Failure EXCEPT !.ok = i.put, !.out = <<Out("value", 0, d.s, a.v)>>] ELSE Failure
    [] i.op = "Message" -> LET d == Text(i.t, "") IN IF d.ok THEN [Failure EXCEPT !.ok = TRUE, !.out = <<Out("message", 0, d.s, EmptyV)>>] ELSE Failure
    [] i.op = "Log" -> LET s == Text(i.u, "info") d == Text(i.t, "") IN
         IF s.ok /\ Sev(s.s) >= 0 /\ d.ok /\ (i.a.n = "" \/ a.ok)
         THEN [Failure EXCEPT !.ok = TRUE, !.out = <<Out("log", Sev(s.s), IF i.a.n # "" /\ HasFraction(a.v) THEN "~" ELSE d.s \o (IF i.a.n = "" THEN "" ELSE Shown(a.v)), EmptyV)>>]
         ELSE Failure
    [] i.op = "Succeed" -> Result(TRUE)
    [] i.op = "Fail" -> Result(FALSE)
DExec(i, ok, out) ==
  LET r == Effect(i) IN
  /\ ok = r.ok
  /\ Len(out) = Len(r.out)
  /\ \A k \in 1..Len(out) : out[k] = r.out[k] \/ (r.out[k].s = "~" /\ [out[k] EXCEPT !.s = "~"] = r.out[k])
  /\ main' = r.main /\ sub' = r.sub /\ UNCHANGED ini
=============================================================================

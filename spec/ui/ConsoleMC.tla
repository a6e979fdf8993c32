------------------------------- MODULE ConsoleMC -------------------------------
(***************************************************************************)
(* All short lines over a small alphabet, read one after the other. What a *)
(* line means is compared with a statement that does not parse it: it is   *)
(* one of the ways to write down the value.                                *)
(***************************************************************************)
EXTENDS Console
CONSTANTS Alphabet, MaxLen, Types
VARIABLES last      \* [t, line, r]: the last request and its answer
mvars == <<lines, last>>
LinesOf(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
MInit == lines = <<>> /\ last = [t |-> "none", line |-> <<>>, r |-> No]
Enter == lines = <<>> /\ \E l \in LinesOf(MaxLen) : lines' = <<l, <<"1">>>> /\ last' = [t |-> "none", line |-> <<>>, r |-> No]
Request == /\ Len(lines) = 2 /\ last.t = "none"
           /\ \E t \in Types \union {"struct"} : LET r == IF Takes(t) THEN Understand(t, lines[1]) ELSE No IN
                Value(t, r) /\ last' = [t |-> t, line |-> lines[1], r |-> r]
Rest == last.t /= "none" /\ lines' = <<>> /\ last' = [t |-> "none", line |-> <<>>, r |-> No]
Spec == MInit /\ [][(lines = <<>> /\ Enter) \/ Request \/ Rest]_mvars

\* all ways to write a value of up to MaxLen characters, from the value
Char(d) == CHOOSE c \in DOMAIN Digit : Digit[c] = d
Chars(ds) == [k \in 1..Len(ds) |-> Char(ds[k])]
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
RECURSIVE Bare(_)
Bare(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in Blank THEN Bare(Tail(s)) ELSE <<Head(s)>> \o Bare(Tail(s))
InOneWord(s) == \A i, j \in 1..Len(s) : i < j /\ s[i] \notin Blank /\ s[j] \notin Blank => \A k \in i..j : s[k] \notin Blank
WaysInt(r) == {sg \o Rep("0", z) \o Chars(r.i) : sg \in (IF r.neg THEN {<<"-">>} ELSE IF r.i = <<>> THEN {<<>>, <<"+">>, <<"-">>} ELSE {<<>>, <<"+">>}), z \in (IF r.i = <<>> THEN 1 ELSE 0)..MaxLen}
RECURSIVE Val(_)
Val(ds) == IF ds = <<>> THEN 0 ELSE 10 * Val(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
InRange(t, r) == LET v == IF r.neg THEN -Val(r.i) ELSE Val(r.i) IN
  CASE t = "int8" -> v \in -128..127 [] t = "uint8" -> v \in 0..255 [] t = "int16" -> v \in -32768..32767 [] t = "uint16" -> v \in 0..65535 [] OTHER -> TRUE
Meaning == last.t \in IntTypes =>
  /\ last.r.ok => InOneWord(last.line) /\ Bare(last.line) \in WaysInt(last.r) /\ InRange(last.t, last.r)
  /\ ~last.r.ok => \* it is not a number, or one that does not fit
       LET b == Bare(last.line) u == Unsign(b) IN
       u = <<>> \/ ~AllDigits(u) \/ ~InOneWord(last.line) \/ ~InRange(last.t, [No EXCEPT !.neg = Signed(b) /\ b[1] = "-", !.i = Digits(u)])
Texts == last.t = "string" => last.r.ok /\ last.r.s = Join(last.line)
Bools == last.t = "bool" => (last.r.ok <=> \E w \in {<<"t","r","u","e">>, <<"f","a","l","s","e">>} : Bare(last.line) = w /\ InOneWord(last.line))
NoStruct == last.t = "struct" => ~last.r.ok
Options == lines /= <<>> => \A n \in 0..3 : LET c == Select(n, lines[1]) r == Understand("uint8", lines[1]) IN c = IF r.ok /\ Val(r.i) \in 1..n THEN Val(r.i) - 1 ELSE -1
\* one line for one request, none for what cannot be entered
OneLine == [][last' /= last /\ last'.t /= "none" => Len(lines') = Len(lines) - (IF last'.t = "struct" THEN 0 ELSE 1)]_mvars
================================================================================

-------------------------------- MODULE Console --------------------------------
(***************************************************************************)
(* The console interface: answers requests with the lines that the user    *)
(* enters. A line is a sequence of characters (texts of length one).       *)
(* Numbers are kept in decimal, so that all ranges are exact:              *)
(*   [neg, i, f]: sign, digits before and after the point, no zeros that   *)
(*   could be left out.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE lines      \* what has been entered and not been read
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
IsDigit(c) == c \in DOMAIN Digit
Blank == {" ", "\t"}
RECURSIVE TrimL(_), TrimR(_), Zeros(_), ZerosR(_), Join(_)
TrimL(s) == IF s = <<>> THEN s ELSE IF Head(s) \in Blank THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Zeros(s) == IF s = <<>> THEN s ELSE IF Head(s) = 0 THEN Zeros(Tail(s)) ELSE s
ZerosR(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN ZerosR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
Digits(s) == [k \in 1..Len(s) |-> Digit[s[k]]]
AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])
Signed(s) == s /= <<>> /\ s[1] \in {"+", "-"}
Unsign(s) == IF Signed(s) THEN Tail(s) ELSE s
\* digits of a whole number, most significant first: which is smaller
Below(a, b) == IF Len(a) /= Len(b) THEN Len(a) < Len(b)
               ELSE \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..k - 1 : a[j] = b[j]
Most(t) == CASE t = "int8" -> <<1,2,7>> [] t = "uint8" -> <<2,5,5>> [] t = "int16" -> <<3,2,7,6,7>> [] t = "uint16" -> <<6,5,5,3,5>>
             [] t = "int32" -> <<2,1,4,7,4,8,3,6,4,7>> [] t = "uint32" -> <<4,2,9,4,9,6,7,2,9,5>>
             [] t = "int64" -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>> [] OTHER -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
IntTypes == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
FloatTypes == {"float32", "float64"}
Signeds == {"int8", "int16", "int32", "int64"}
\* the greatest digits of a negative number: one more than of a positive one
Least(t) == IF t \in Signeds THEN [Most(t) EXCEPT ![Len(Most(t))] = @ + 1] ELSE <<>>
ConsoleTypes == IntTypes \union FloatTypes \union {"bool", "char8", "string"}

No == [ok |-> FALSE, neg |-> FALSE, i |-> <<>>, f |-> <<>>, s |-> ""]
Number(neg, i, f) == [No EXCEPT !.ok = TRUE, !.i = Zeros(i), !.f = ZerosR(f), !.neg = neg /\ (Zeros(i) /= <<>> \/ ZerosR(f) /= <<>>)]
Text(s) == [No EXCEPT !.ok = TRUE, !.s = s]
ReadInt(t, s) ==
  LET b == Unsign(s) d == Zeros(Digits(b)) neg == Signed(s) /\ s[1] = "-" IN
  IF b = <<>> \/ ~AllDigits(b) THEN No
  ELSE IF Below(IF neg THEN Least(t) ELSE Most(t), d) THEN No ELSE Number(neg, d, <<>>)
\* at most one point, with a digit on at least one side of it
ReadFloat(s) ==
  LET b == Unsign(s) P == {k \in 1..Len(b) : b[k] = "."} IN
  IF P = {} THEN IF b = <<>> \/ ~AllDigits(b) THEN No ELSE Number(Signed(s) /\ s[1] = "-", Digits(b), <<>>)
  ELSE LET k == CHOOSE k \in P : \A j \in P : k <= j
           i == SubSeq(b, 1, k - 1)  f == SubSeq(b, k + 1, Len(b)) IN
       IF ~AllDigits(i) \/ ~AllDigits(f) \/ (i = <<>> /\ f = <<>>) THEN No
       ELSE Number(Signed(s) /\ s[1] = "-", Digits(i), Digits(f))
\* what a line means as a value of a type
Understand(t, line) ==
  LET s == Trim(line) IN
  CASE t = "string" -> Text(Join(line))
    [] t = "bool" -> IF Join(s) \in {"true", "false"} THEN Text(Join(s)) ELSE No
    [] t = "char8" -> IF Len(s) = 1 THEN Text(s[1]) ELSE No
    [] t \in IntTypes -> ReadInt(t, s)
    [] t \in FloatTypes -> ReadFloat(s)
    [] OTHER -> No
\* which of n options a line selects, counted from 0; -1: none
Select(n, line) ==
  LET r == ReadInt("int32", Trim(line)) IN
  IF ~r.ok \/ r.neg \/ Len(r.i) > 2 THEN -1
  ELSE LET v == CASE Len(r.i) = 0 -> 0 [] Len(r.i) = 1 -> r.i[1] [] OTHER -> 10 * r.i[1] + r.i[2] IN
       IF v \in 1..n THEN v - 1 ELSE -1

CInit(ls) == lines = ls
\* A request for a value takes one line, if there is one and the type is one that can be entered.
Takes(t) == t \in ConsoleTypes
\* A zero with a minus may be refused for an unsigned type.
MinusZero(t, line) == LET s == Trim(line) IN t \in IntTypes \ Signeds /\ Signed(s) /\ s[1] = "-" /\ ReadInt("int8", s).ok /\ ReadInt("int8", s).i = <<>>
Value(t, r) == /\ lines' = IF Takes(t) /\ lines /= <<>> THEN Tail(lines) ELSE lines
               /\ r \in IF Takes(t) /\ lines /= <<>> THEN {Understand(t, lines[1])} \union (IF MinusZero(t, lines[1]) THEN {No} ELSE {}) ELSE {No}
Choose(n, r) == /\ lines' = IF lines /= <<>> THEN Tail(lines) ELSE lines
                /\ r = IF lines /= <<>> THEN Select(n, lines[1]) ELSE -1
\* what the user sees: the question, and the options in order, each with the number that selects it
Listed(shown, options) == \E k \in 0..Len(shown) - Len(options) : \A i \in 1..Len(options) : shown[k + i] = [n |-> i, s |-> options[i]]
================================================================================

-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Typed values as variables hold them. A value is a record                *)
(*   t  name of its type: "empty", "bool", "int8" ... "string", "struct",  *)
(*      "array"                                                            *)
(*   x  the number times 4 (quarters are the smallest fraction in use)     *)
(*   s  the text of a string, the type name of a struct or array           *)
(*   n  names of members          m  members or elements                   *)
(*   e  arrays: <<the default element>>                                    *)
(* Numbers that occur are small: only the ranges of 8 and 16 bit and the   *)
(* sign of unsigned types matter.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
EmptyV == [t |-> "empty", x |-> 0, s |-> "", n |-> <<>>, m |-> <<>>, e |-> <<>>]
Num(t, x) == [EmptyV EXCEPT !.t = t, !.x = x]
IntV(t, i) == Num(t, 4 * i)
BoolV(b) == Num("bool", IF b THEN 4 ELSE 0)
Str(s) == [EmptyV EXCEPT !.t = "string", !.s = s]
IsEmpty(v) == v.t = "empty"
FloatTypes == {"float32", "float64"}
SignedTypes == {"char8", "int8", "int16", "int32", "int64"}
UnsignedTypes == {"uint8", "uint16", "uint32", "uint64"}
IntTypes == SignedTypes \union UnsignedTypes
NumTypes == IntTypes \union FloatTypes \union {"bool"}
ScalarTypes == NumTypes \union {"string"}
IsScalar(v) == v.t \in ScalarTypes
Low(t) == CASE t \in {"char8", "int8"} -> -128 [] t = "int16" -> -32768 [] t \in UnsignedTypes -> 0 [] OTHER -> -100000000
High(t) == CASE t \in {"char8", "int8"} -> 127 [] t = "uint8" -> 255 [] t = "int16" -> 32767 [] t = "uint16" -> 65535 [] OTHER -> 100000000
Trunc(x) == IF x >= 0 THEN 4 * (x \div 4) ELSE -(4 * ((-x) \div 4))

(***************************************************************************)
(* Conversion of o into the type of d: [ok, v]. A failing conversion has   *)
(* no effect, also on parts of a value.                                    *)
(***************************************************************************)
RECURSIVE Conv(_, _)
Fail(d) == [ok |-> FALSE, v |-> d]
Done(v) == [ok |-> TRUE, v |-> v]
ConvParts(d, o) ==
  LET r == [i \in 1..Len(d.m) |-> Conv(d.m[i], o.m[i])] IN
  IF \A i \in 1..Len(d.m) : r[i].ok THEN Done([d EXCEPT !.m = [i \in 1..Len(d.m) |-> r[i].v]]) ELSE Fail(d)
Conv(d, o) ==
  CASE d.t = "empty" -> IF o.t = "empty" THEN Done(d) ELSE Fail(d)
    [] d.t = "bool" -> IF o.t \in NumTypes THEN Done(BoolV(o.x /= 0)) ELSE Fail(d)
    [] d.t \in IntTypes -> IF o.t \in NumTypes /\ o.x >= 4 * Low(d.t) /\ o.x <= 4 * High(d.t) THEN Done(Num(d.t, Trunc(o.x))) ELSE Fail(d)
    [] d.t \in FloatTypes -> IF o.t \in NumTypes THEN Done(Num(d.t, o.x)) ELSE Fail(d)
    [] d.t = "string" -> IF o.t = "string" THEN Done([d EXCEPT !.s = o.s]) ELSE Fail(d)
    [] d.t = "struct" -> IF o.t = "struct" /\ o.n = d.n THEN ConvParts(d, o) ELSE Fail(d)
    [] d.t = "array" -> IF o.t = "array" /\ Len(o.m) = Len(d.m) THEN ConvParts(d, o) ELSE Fail(d)
    [] OTHER -> Fail(d)
\* Elements of arrays keep their type, everything else takes over the type of what is assigned.
Assign(d, o, locked) == IF locked THEN Conv(d, o) ELSE Done(o)
AssignIfEmptyOrConvert(d, o) == IF IsEmpty(d) THEN Done(o) ELSE Conv(d, o)

(***************************************************************************)
(* Fields: a path is a sequence of steps [n, i]: member n, or element i    *)
(* (from 0) when n is "".                                                  *)
(***************************************************************************)
\* position of the part that the step leads to, 0: there is none
Part(v, p) ==
  IF p.n = "" THEN (IF v.t = "array" /\ p.i >= 0 /\ p.i < Len(v.m) THEN p.i + 1 ELSE 0)
  ELSE IF v.t = "struct" /\ \E k \in 1..Len(v.n) : v.n[k] = p.n THEN CHOOSE k \in 1..Len(v.n) : v.n[k] = p.n ELSE 0
RECURSIVE HasField(_, _), Field(_, _), SetField(_, _, _, _)
HasField(v, path) == IF path = <<>> THEN TRUE ELSE IF Part(v, Head(path)) = 0 THEN FALSE ELSE HasField(v.m[Part(v, Head(path))], Tail(path))
Field(v, path) == IF path = <<>> THEN v ELSE Field(v.m[Part(v, Head(path))], Tail(path))
SetField(v, path, o, locked) ==
  IF path = <<>> THEN Assign(v, o, locked)
  ELSE LET k == Part(v, Head(path)) IN
       IF k = 0 THEN Fail(v)
       ELSE LET r == SetField(v.m[k], Tail(path), o, locked \/ v.t = "array") IN
            IF r.ok THEN Done([v EXCEPT !.m[k] = r.v]) ELSE Fail(v)

(***************************************************************************)
(* Comparison                                                              *)
(***************************************************************************)
\* "L", "E", "G" or "U" (cannot be compared). Texts that occur are compared with the table Order.
Cmp(a, b, less) ==
  CASE ~IsScalar(a) \/ ~IsScalar(b) -> "U"
    [] a.t = "string" /\ b.t = "string" -> IF a.s = b.s THEN "E" ELSE IF less[a.s, b.s] THEN "L" ELSE "G"
    [] a.t = "string" \/ b.t = "string" -> "U"
    [] OTHER -> IF a.x < b.x THEN "L" ELSE IF a.x > b.x THEN "G" ELSE "E"
RECURSIVE Equal(_, _)
Equal(a, b) ==
  CASE IsEmpty(a) \/ IsEmpty(b) -> IsEmpty(a) /\ IsEmpty(b)
    [] IsScalar(a) /\ IsScalar(b) -> (a.t = "string") = (b.t = "string") /\ a.x = b.x /\ a.s = b.s
    [] OTHER -> a.t = b.t /\ a.n = b.n /\ Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : Equal(a.m[i], b.m[i])
\* The type of a value, as a value of that type with all parts empty or zero.
RECURSIVE Default(_)
Default(v) == [v EXCEPT !.x = 0, !.s = IF v.t = "string" THEN "" ELSE v.s, !.m = [i \in 1..Len(v.m) |-> Default(v.m[i])]]
SameType(a, b) == Default(a) = Default(b)
===============================================================================

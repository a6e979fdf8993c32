-------------------------------- MODULE DataMC --------------------------------
(* What the instructions promise, on all short programs over a small memory. *)
EXTENDS Data
CONSTANTS MaxOps
VARIABLES n, last
mvars == <<dvars, n, last>>
I8(x) == IntV("int8", x)
Pair == [EmptyV EXCEPT !.t = "struct", !.n = <<"a", "b">>, !.m = <<IntV("uint8", 255), Str("x")>>]
Arr == [EmptyV EXCEPT !.t = "array", !.m = <<I8(1)>>, !.e = <<I8(0)>>]
V(v, d) == [dyn |-> d, val |-> v]
Main0 == [i |-> V(I8(127), FALSE), u |-> V(IntV("uint8", 0), FALSE), f |-> V(Num("float64", 5), FALSE), s |-> V(Str("yes"), FALSE),
          p |-> V(Pair, TRUE), r |-> V(Arr, TRUE), y |-> V(EmptyV, TRUE)]
Sub0 == [i |-> V(I8(3), FALSE)]
Ref(x, p) == [n |-> x, p |-> p]
Refs == {Ref(x, <<>>) : x \in DOMAIN Main0} \cup {Ref("p", <<[n |-> "a", i |-> 0]>>), Ref("r", <<[n |-> "", i |-> 0]>>), Ref("none", <<>>)}
NoT == [k |-> "none", s |-> ""]
Lit(s) == [k |-> "lit", s |-> s]
Ops == {"Copy", "CopyFrom", "CopyTo", "Increment", "Decrement", "Condition", "Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual",
        "AddMember", "AddElement", "ResetVariable", "VarExists", "Output"}
Unary == {"Increment", "Decrement", "Condition", "ResetVariable", "VarExists", "Output"}
Pure == {"Condition", "Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "VarExists", "Output"}
Instr(op, a, b) == [op |-> op, a |-> a, b |-> b, t |-> IF op = "AddMember" THEN Lit("c") ELSE NoT, u |-> NoT, put |-> TRUE]
None == Ref("none", <<>>)
Small(M) == \A x \in DOMAIN M : Len(M[x].val.m) <= 3
Init == main = Main0 /\ sub = Sub0 /\ ini = [x \in DOMAIN Main0 |-> Main0[x].val] /\ n = 0 /\ last = [i |-> Instr("Succeed", None, None), ok |-> TRUE, was |-> Main0]
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E op \in Ops, a \in Refs, b \in Refs :
             /\ (op \in Unary => b = None)
             /\ (op \in Pure => n' = MaxOps)   \* they lead back to the same memory: no need to go on from there
             /\ LET i == Instr(op, a, b) r == Effect(i) IN
                /\ DExec(i, r.ok, r.out) /\ Small(main')
                /\ last' = [i |-> i, ok |-> r.ok, was |-> main]
Spec == Init /\ [][Next]_mvars
A == MGet(last.was, last.i.a.n, last.i.a.p, EmptyV)
Bb == MGet(last.was, last.i.b.n, last.i.b.p, EmptyV)
Ok(op, a, b) == Effect(Instr(op, a, b)).ok
\* a failing instruction changes nothing
FailNothing == ~last.ok => main = last.was
\* only the variable that is written changes; its type changes only if it may
OnlyTarget == \A x \in DOMAIN main : main[x] # last.was[x] => x = (IF last.i.op \in {"Increment", "Decrement", "ResetVariable"} THEN last.i.a.n ELSE last.i.b.n)
TypesKept == \A x \in DOMAIN main : ~main[x].dyn /\ ~IsEmpty(last.was[x].val) => SameType(main[x].val, last.was[x].val)
\* orders are orders (on all kinds of values)
F(x) == Num("float64", x)
Vals == {I8(-128), I8(0), I8(1), I8(127), IntV("uint8", 0), IntV("uint8", 255), IntV("uint16", 127), IntV("int64", 255), F(0), F(4), F(5), F(-512), BoolV(TRUE), BoolV(FALSE),
         Str(""), Str("x"), Str("yes"), Pair, Arr, [Pair EXCEPT !.m[1] = IntV("int32", 255)], [Arr EXCEPT !.m = <<>>], EmptyV}
Lt(a, b) == CmpV(a, b) = "L"
Gt(a, b) == CmpV(a, b) = "G"
Le(a, b) == CmpV(a, b) \in {"L", "E"}
ASSUME \A a \in Vals, b \in Vals :
    /\ Lt(a, b) = Gt(b, a)
    /\ ~(Lt(a, b) /\ Gt(a, b))
    /\ (Le(a, b) /\ Le(b, a)) => Equal(a, b)
    /\ (Equal(a, b) /\ IsScalar(a)) => Le(a, b)
    /\ Equal(a, b) = Equal(b, a)
    /\ Equal(a, a)
    /\ \A c \in Vals : (Lt(a, b) /\ Lt(b, c) => Lt(a, c)) /\ (Equal(a, b) /\ Equal(b, c) => Equal(a, c))
\* up and down again
ASSUME \A v \in Vals : Step(v, 1).ok => Step(Step(v, 1).v, 0 - 1) = Done(v)
CopyCopies == (last.i.op = "Copy" /\ last.ok /\ last.was[last.i.b.n].dyn /\ last.i.b.p = <<>>) => MGet(main, last.i.b.n, last.i.b.p, EmptyV).v = A.v
===============================================================================

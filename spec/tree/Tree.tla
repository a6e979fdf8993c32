-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The behaviour of instruction trees.                                     *)
(*                                                                         *)
(* A tree is a sequence of nodes in preorder, node 1 the root. A node is a *)
(* record with at least                                                    *)
(*   t  its type          c  the sequence of its children                  *)
(*   z  the size of the subtree it is the root of (nodes n..n+z-1)         *)
(* and what its type needs besides.                                        *)
(*                                                                         *)
(* Threads execute nodes: 0 is the thread that ticks the root, a node      *)
(* number c stands for the thread that runs the asynchronous child c, and  *)
(* negative numbers are threads that only halt. A thread is a stack of     *)
(* frames [n, pc, k, r]; what a thread does next is decided by its top frame. *)
(* Everything is one record S, and Succ(S, t) is the set of successors of  *)
(* thread t: pairs of a new state and the event that the step shows        *)
(* ("tau" if it shows none). Steps that touch nothing shared between       *)
(* threads are taken at once (Adv), so that a stack always stands before   *)
(* something another thread can notice.                                    *)
(*                                                                         *)
(* Status: NS not started, NF not finished, RU running, SU success, FA     *)
(* failure.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MainThread
VARIABLES tree, S

Nodes == 1..Len(tree)
N(n) == tree[n]
Kids(n) == N(n).c
Status == {"NS", "NF", "RU", "SU", "FA"}
Finished(s) == s \in {"SU", "FA"}
Needs(s) == s \notin {"SU", "FA"}         \* has to be executed (again)
Ready(s) == s \in {"NS", "NF"}            \* waits for its next tick
Tau == [k |-> "tau"]
Leafs == {"Leaf"}
NoMem == [cnt |-> 0, max |-> 0, lst |-> <<>>, ini |-> FALSE, sth |-> 0, fth |-> 0, frc |-> FALSE, cch |-> <<>>]
AsyncKids(tr) == UNION {{tr[n].c[i] : i \in 1..Len(tr[n].c)} : n \in {m \in 1..Len(tr) : tr[m].t \in {"Async", "Par"}}}

\* halters: the numbers of the threads that may halt from outside
InitState(tr, halters, vals) ==
  [st |-> [n \in 1..Len(tr) |-> "NS"],
   flag |-> [n \in 1..Len(tr) |-> FALSE],
   mem |-> [n \in 1..Len(tr) |-> NoMem],
   wr |-> [n \in AsyncKids(tr) |-> [st |-> "NS", up |-> FALSE, fut |-> FALSE]],
   stk |-> [t \in {MainThread} \cup halters \cup AsyncKids(tr) |-> <<>>],
   val |-> vals]

\* ==== stacks ====
Top(s, t) == s.stk[t][Len(s.stk[t])]
Frame(n, pc, k) == [n |-> n, pc |-> pc, k |-> k, r |-> ""]
Push(s, t, f) == [s EXCEPT !.stk[t] = Append(@, f)]
Pop(s, t) == [s EXCEPT !.stk[t] = SubSeq(@, 1, Len(@) - 1)]
Repl(s, t, f) == [s EXCEPT !.stk[t] = [@ EXCEPT ![Len(@)] = f]]
Goto(s, t, pc) == Repl(s, t, [Top(s, t) EXCEPT !.pc = pc])
Result(s, t, r) == Repl(s, t, [Top(s, t) EXCEPT !.pc = "res", !.k = 0, !.r = r])
SetMem(s, n, f, v) == CASE f = "cnt" -> [s EXCEPT !.mem[n].cnt = v]
                        [] f = "lst" -> [s EXCEPT !.mem[n].lst = v]
                        [] f = "ini" -> [s EXCEPT !.mem[n].ini = v]
                        [] f = "cch" -> [s EXCEPT !.mem[n].cch = v]

\* ==== values ====
\* a value is [ty, x]: "i" a number <<x>>, "b" truth value <<0>> or <<1>>, "a" an array of numbers, "s" anything else
Has(s, v) == v \in DOMAIN s.val
Range(q) == {q[i] : i \in 1..Len(q)}

\* ==== compounds ====
\* the children a compound goes through, in order
List(s, n) == IF N(n).t = "Choice" THEN s.mem[n].lst ELSE Kids(n)
Pass(n) == IF N(n).t \in {"Fb", "RFb"} THEN "FA" ELSE "SU"
\* the first child that has not been passed yet, 0 if there is none
RECURSIVE FirstLeft(_, _, _, _)
FirstLeft(s, lst, pass, i) == IF i > Len(lst) THEN 0 ELSE IF s.st[lst[i]] = pass THEN FirstLeft(s, lst, pass, i + 1) ELSE i
Compound(s, n) ==
  LET lst == List(s, n)
      i == FirstLeft(s, lst, Pass(n), 1)
  IN IF i = 0 THEN Pass(n)
     ELSE IF Ready(s.st[lst[i]]) THEN "NF" ELSE s.st[lst[i]]

Min2(a, b) == IF a < b THEN a ELSE b
CountWr(s, n, x) == Cardinality({i \in 1..Len(Kids(n)) : s.wr[Kids(n)[i]].st = x})
ParStatus(s, n) ==
  IF CountWr(s, n, "SU") >= s.mem[n].sth THEN "SU"
  ELSE IF CountWr(s, n, "FA") >= s.mem[n].fth THEN "FA"
  ELSE IF CountWr(s, n, "NF") > 0 THEN "NF" ELSE "RU"
Thresholds(n) ==
  LET m == Len(Kids(n))
      s0 == IF N(n).sth >= 0 THEN Min2(m, N(n).sth) ELSE m
      f0 == IF N(n).fth >= 0 THEN Min2(m, N(n).fth) ELSE 1
  IN IF N(n).sth >= 0 THEN <<s0, Min2(f0, m - s0 + 1)>>
     ELSE IF N(n).fth >= 0 THEN <<m + 1 - f0, f0>> ELSE <<s0, f0>>

\* ==== initialisation ====
\* the states after initialisation of n, with its success
NewWr == [st |-> "NS", up |-> TRUE, fut |-> FALSE]
Inits(s, n) ==
  LET d == N(n) IN
  CASE d.t = "Leaf" -> {<<s, TRUE>>, <<s, FALSE>>}
    [] d.t = "Rep" ->
       IF d.v = "" THEN {<<[s EXCEPT !.mem[n].cnt = 0, !.mem[n].max = d.m], TRUE>>}
       ELSE IF Has(s, d.v) /\ s.val[d.v].ty = "i"
            THEN {<<[s EXCEPT !.mem[n].cnt = 0, !.mem[n].max = s.val[d.v].x[1]], TRUE>>}
            ELSE {<<[s EXCEPT !.mem[n].cnt = 0, !.mem[n].max = 0], FALSE>>}
    [] d.t = "For" ->
       IF Has(s, d.av)
       THEN {<<[s EXCEPT !.mem[n].cnt = 0, !.mem[n].lst = s.val[d.av].x, !.mem[n].ini = (s.val[d.av].ty = "a")], TRUE>>}
       ELSE {<<[s EXCEPT !.mem[n].cnt = 0], FALSE>>}
    [] d.t = "Async" -> {<<[s EXCEPT !.wr[Kids(n)[1]] = NewWr], TRUE>>}
    [] d.t = "Par" -> {<<[s EXCEPT !.wr = [c \in DOMAIN @ |-> IF c \in Range(Kids(n)) THEN NewWr ELSE @[c]],
                                   !.mem[n].sth = Thresholds(n)[1], !.mem[n].fth = Thresholds(n)[2]], TRUE>>}
    [] d.t = "Lis" ->
       LET s1 == [s EXCEPT !.mem[n].cch = [i \in 1..Len(d.vs) |-> [ty |-> "", x |-> <<>>]]]
       IN IF d.fv = "" THEN {<<[s1 EXCEPT !.mem[n].frc = d.fs], TRUE>>}
          ELSE IF Has(s, d.fv) /\ s.val[d.fv].ty = "b" THEN {<<[s1 EXCEPT !.mem[n].frc = (s.val[d.fv].x[1] = 1)], TRUE>>}
          ELSE {<<s1, FALSE>>}
    [] OTHER -> {<<s, TRUE>>}

\* ==== silent local steps ====
\* which value the selection of a Choice makes of its variable
SelList(s, n) ==
  LET d == N(n) IN
  IF ~Has(s, d.v) THEN [ok |-> FALSE, l |-> <<>>]
  ELSE LET w == s.val[d.v] IN
    IF w.ty \notin {"i", "a"} THEN [ok |-> FALSE, l |-> <<>>]
    ELSE IF \E i \in 1..Len(w.x) : w.x[i] < 0 \/ w.x[i] >= Len(Kids(n)) THEN [ok |-> FALSE, l |-> <<>>]
    ELSE [ok |-> TRUE, l |-> [i \in 1..Len(w.x) |-> Kids(n)[w.x[i] + 1]]]

LoopResult(s, n) ==   \* of Repeat and For, from the status of the child and the count
  LET c == s.st[Kids(n)[1]]
      max == IF N(n).t = "Rep" THEN s.mem[n].max ELSE Len(s.mem[n].lst)
  IN IF c = "SU" THEN (IF s.mem[n].cnt = max THEN "SU" ELSE "NF") ELSE c
LisResult(s, n) ==
  LET c == s.st[Kids(n)[1]]
  IN IF c = "SU" \/ (c = "FA" /\ s.mem[n].frc) THEN "NF" ELSE c
\* what Listen sees: the cache after looking at the variables
NewCache(s, n) == [i \in 1..Len(N(n).vs) |-> IF Has(s, N(n).vs[i]) THEN s.val[N(n).vs[i]] ELSE s.mem[n].cch[i]]

RECURSIVE PushResets(_, _, _, _)
\* frames that reset the children lst[i..] one after the other (first one on top)
PushResets(s, t, lst, i) == IF i = 0 THEN s ELSE PushResets(Push(s, t, Frame(lst[i], "reset", 0)), t, lst, i - 1)
Without(lst, c) == SelectSeq(lst, LAMBDA x : x # c)

\* the polls of the wrappers of a parallel sequence start at the first child that is left
RECURSIVE NextPoll(_, _, _)
NextPoll(s, n, i) == IF i > Len(Kids(n)) THEN 0 ELSE IF Needs(s.wr[Kids(n)[i]].st) THEN i ELSE NextPoll(s, n, i + 1)

RECURSIVE Adv(_, _)
Adv(s, t) ==
  IF s.stk[t] = <<>> THEN s
  ELSE
  LET f == Top(s, t)
      n == f.n
      d == N(n)
      kid == Kids(n)[1]
  IN
  CASE f.pc = "exec" /\ s.st[n] # "NS" -> Adv(Goto(s, t, "check"), t)
    [] f.pc = "check" /\ Finished(s.st[n]) -> Adv(Pop(s, t), t)
    [] f.pc = "res" /\ s.st[n] = f.r -> Adv(Pop(s, t), t)
    [] f.pc = "impl" ->
       (CASE d.t \in {"Seq", "Fb", "RSeq", "RFb"} ->
              LET lst == Kids(n)
                  i == FirstLeft(s, lst, Pass(n), 1)
              IN IF i > 0 THEN (IF Needs(s.st[lst[i]])
                                THEN Adv(Push(Repl(s, t, Frame(n, "after", lst[i])), t, Frame(lst[i], "exec", 0)), t)
                                ELSE Adv(Result(s, t, Compound(s, n)), t))
                 ELSE Adv(Result(s, t, Compound(s, n)), t)
         [] d.t = "Choice" ->
              IF ~s.mem[n].ini
              THEN LET q == SelList(s, n)
                       s1 == [s EXCEPT !.mem[n].ini = TRUE, !.mem[n].lst = q.l, !.mem[n].cnt = 0]
                   IN Adv(Result(s1, t, IF q.ok THEN "NF" ELSE "FA"), t)
              ELSE IF s.mem[n].cnt >= Len(s.mem[n].lst) THEN Adv(Result(s, t, "SU"), t)
              ELSE LET c == s.mem[n].lst[s.mem[n].cnt + 1]
                   IN IF s.st[c] = "SU"      \* a repeated choice: once more from the start
                      THEN Adv(Push(Repl(s, t, Frame(n, "again", c)), t, Frame(c, "reset", 0)), t)
                      ELSE Adv(Push(Repl(s, t, Frame(n, "after", c)), t, Frame(c, "exec", 0)), t)
         [] d.t \in {"Inv", "Inc"} ->
              IF Needs(s.st[kid]) THEN Adv(Push(Goto(s, t, "after"), t, Frame(kid, "exec", 0)), t)
              ELSE Adv(Goto(s, t, "after"), t)
         [] d.t = "FS" -> Adv(Push(Goto(s, t, "after"), t, Frame(kid, "exec", 0)), t)
         [] d.t = "Rep" ->
              IF s.mem[n].max = 0 THEN Adv(Result(s, t, "SU"), t)
              ELSE IF s.st[kid] = "SU" THEN Adv(Push(Repl(s, t, Frame(n, "again", kid)), t, Frame(kid, "reset", 0)), t)
              ELSE Adv(Push(Goto(s, t, "after"), t, Frame(kid, "exec", 0)), t)
         [] d.t = "For" ->
              IF ~s.mem[n].ini THEN Adv(Result(s, t, "FA"), t)              \* not an array
              ELSE IF s.mem[n].lst = <<>> THEN Adv(Result(s, t, "SU"), t)
              ELSE IF ~Has(s, d.ev) \/ s.val[d.ev].ty # "i" THEN Adv(Result(s, t, "FA"), t)
              ELSE Goto(s, t, "assign")
         [] d.t = "Lis" -> Goto(s, t, "lcheck")
         [] d.t = "Async" -> IF Needs(s.wr[kid].st) THEN Adv(Goto(s, t, "poll"), t)
                             ELSE Adv(Result(s, t, s.wr[kid].st), t)
         [] d.t = "Par" -> Adv(Repl(s, t, Frame(n, "polls", 1)), t)
         [] OTHER -> s)
    [] f.pc = "after" ->
       (CASE d.t \in {"RSeq", "RFb"} /\ s.st[f.k] = "RU" ->
              LET lst == Without(Kids(n), f.k)
              IN Adv(PushResets(Result(s, t, "RU"), t, lst, Len(lst)), t)
         [] d.t \in {"Seq", "Fb", "RSeq", "RFb"} -> Adv(Result(s, t, Compound(s, n)), t)
         [] d.t = "Choice" ->
              LET c == s.st[f.k]
                  s1 == IF c = "SU" THEN SetMem(s, n, "cnt", s.mem[n].cnt + 1) ELSE s
              IN Adv(Result(s1, t, IF c = "SU" THEN (IF s1.mem[n].cnt = Len(s1.mem[n].lst) THEN "SU" ELSE "NF")
                                   ELSE IF Ready(c) THEN "NF" ELSE c), t)
         [] d.t = "Inv" -> Adv(Result(s, t, CASE s.st[kid] = "SU" -> "FA" [] s.st[kid] = "FA" -> "SU" [] OTHER -> s.st[kid]), t)
         [] d.t = "Inc" -> Adv(Result(s, t, s.st[kid]), t)
         [] d.t = "FS" -> Adv(Result(s, t, IF s.st[kid] = "FA" THEN "SU" ELSE s.st[kid]), t)
         [] d.t \in {"Rep", "For"} ->
              LET s1 == IF Finished(s.st[kid]) /\ (d.t = "For" \/ s.mem[n].max > 0)
                        THEN SetMem(s, n, "cnt", s.mem[n].cnt + 1) ELSE s
              IN Adv(Result(s1, t, LoopResult(s1, n)), t)
         [] d.t = "Lis" -> Adv(Result(s, t, LisResult(s, n)), t)
         [] OTHER -> s)
    [] f.pc = "loop" ->      \* Listen, not halted
       (IF s.st[kid] \in {"NF", "RU"} THEN Adv(Push(Goto(s, t, "after"), t, Frame(kid, "exec", 0)), t)
        ELSE IF Finished(s.st[kid]) THEN Adv(Push(Goto(s, t, "again"), t, Frame(kid, "reset", 0)), t)
        ELSE Adv(Goto(s, t, "look"), t))
    [] f.pc = "look" ->
       (LET c == NewCache(s, n)
        IN IF c = s.mem[n].cch THEN Adv(Result(s, t, "RU"), t)
           ELSE Adv(Push(Goto(SetMem(s, n, "cch", c), t, "after"), t, Frame(kid, "exec", 0)), t))
    [] f.pc = "poll" /\ ~s.wr[kid].fut -> Adv(Goto(s, t, "tickw"), t)
    [] f.pc = "polls" ->
       (LET i == NextPoll(s, n, f.k)
        IN IF i = 0
           THEN (IF Finished(ParStatus(s, n))
                 THEN Push(Result(s, t, ParStatus(s, n)), t, Frame(n, "halt", n))
                 ELSE Adv(Result(s, t, ParStatus(s, n)), t))
           ELSE IF s.wr[Kids(n)[i]].fut THEN Repl(s, t, Frame(n, "pollp", i)) ELSE Adv(Repl(s, t, Frame(n, "tickp", i)), t))
    [] f.pc \in {"tickw", "tickp"} ->      \* the wrapper looks at its child, which nobody executes
       (LET c == IF f.pc = "tickw" THEN kid ELSE Kids(n)[f.k]
            changed == s.wr[c].st # s.st[c]
            s1 == [s EXCEPT !.wr[c].st = s.st[c], !.wr[c].fut = FALSE]
            s2 == IF ~changed /\ Needs(s.st[c])
                  THEN Adv([s1 EXCEPT !.wr[c] = [st |-> "RU", up |-> TRUE, fut |-> TRUE], !.stk[c] = <<Frame(c, "exec", 0)>>], c)
                  ELSE s1
        IN IF f.pc = "tickw" THEN Adv(Result(s2, t, s2.wr[c].st), t)
           ELSE Adv(Repl(s2, t, Frame(n, "polls", f.k + 1)), t))
    \* reset: first what the type does, then the node itself
    [] f.pc = "reset" ->
       (LET kids == Kids(n)
            s1 == [s EXCEPT !.mem[n] = NoMem]
            s2 == PushResets(Goto(s1, t, "clear"), t, kids, Len(kids))
        IN CASE d.t \in {"Async", "Par"} ->
                  (LET s3 == Goto(s, t, "join")
                       live == s.st[n] = "RU" \/ (d.t = "Par" /\ s.st[n] = "NF")
                   IN IF live THEN Push(s3, t, Frame(n, "halt", n)) ELSE Adv(s3, t))
             [] OTHER -> Adv(s2, t))
    [] f.pc = "join" /\ (\A i \in 1..Len(Kids(n)) : s.stk[Kids(n)[i]] = <<>>) ->
       (LET kids == Kids(n)
            s1 == [s EXCEPT !.wr = [c \in DOMAIN @ |-> IF c \in Range(kids) THEN [st |-> "NS", up |-> FALSE, fut |-> FALSE] ELSE @[c]],
                            !.mem[n] = NoMem]
        IN Adv(PushResets(Goto(s1, t, "clear"), t, kids, Len(kids)), t))
    [] OTHER -> s

\* ==== steps ====
StEv(n, x) == [k |-> "st", n |-> n, s |-> x]
One(x) == {x}
Succ(s, t) ==
  IF s.stk[t] = <<>> THEN {}
  ELSE
  LET f == Top(s, t)
      n == f.n
      d == N(n)
      kid == Kids(n)[1]
  IN
  CASE f.pc = "exec" ->          \* the first tick
         {LET x == IF i[2] THEN "NF" ELSE "FA"
          IN <<Adv(Goto([i[1] EXCEPT !.st[n] = x], t, "check"), t), StEv(n, x)>> : i \in Inits(s, n)}
    [] f.pc = "check" ->         \* not once halted
         One(<<IF s.flag[n] THEN Adv(Pop(s, t), t) ELSE Adv(Goto(s, t, "impl"), t), Tau>>)
    [] f.pc = "impl" ->          \* a leaf begins ...
         One(<<Goto(s, t, "leaf"), [k |-> "b", n |-> n]>>)
    [] f.pc = "leaf" ->          \* ... and ends, with any outcome
         {<<Adv(Result(s, t, o), t), [k |-> "e", n |-> n, o |-> o]>> : o \in {"NF", "RU", "SU", "FA"}}
         \* a leaf that waits for a halt request sees it (HA), or gives up without one (NH)
         \cup {<<Adv(Result(s, t, "FA"), t), [k |-> "e", n |-> n, o |-> IF s.flag[n] THEN "HA" ELSE "NH"]>>}
    [] f.pc = "write" ->         \* a leaf writes a variable: it is notified, if it is there
         IF Has(s, f.r) THEN One(<<Pop([s EXCEPT !.val[f.r].x = <<f.k>>], t), [k |-> "var", v |-> f.r, x |-> <<f.k>>]>>)
         ELSE One(<<Pop(s, t), Tau>>)
    [] f.pc = "res" ->
         One(<<Adv(Pop([s EXCEPT !.st[n] = f.r], t), t), StEv(n, f.r)>>)
    [] f.pc = "assign" ->
         IF ~Has(s, d.ev) THEN One(<<Adv(Result(s, t, "FA"), t), Tau>>)
         ELSE LET x == [ty |-> "i", x |-> <<s.mem[n].lst[s.mem[n].cnt + 1]>>]
             s1 == [s EXCEPT !.val[d.ev] = x]
         IN One(<<Adv(IF s.st[kid] = "SU" THEN Push(Repl(s1, t, Frame(n, "again", kid)), t, Frame(kid, "reset", 0))
                      ELSE Push(Goto(s1, t, "after"), t, Frame(kid, "exec", 0)), t),
                  [k |-> "var", v |-> d.ev, x |-> x.x]>>)
    [] f.pc = "lcheck" -> One(<<Adv(IF s.flag[n] THEN Result(s, t, "FA") ELSE Goto(s, t, "loop"), t), Tau>>)
    [] f.pc = "again" ->         \* the child was reset: a halt that came meanwhile must not get lost
         One(<<Adv(IF s.flag[n] THEN Result(s, t, IF d.t = "Lis" THEN "FA" ELSE "NF")
                   ELSE IF d.t = "Lis" THEN Goto(s, t, "look")
                   ELSE IF d.t = "Choice" THEN Push(Goto(s, t, "after"), t, Frame(f.k, "exec", 0))
                   ELSE Push(Goto(s, t, "after"), t, Frame(kid, "exec", 0)), t), Tau>>)
    [] f.pc = "poll" ->
         IF s.stk[kid] = <<>>
         THEN {<<Adv(Goto(s, t, "tickw"), t), Tau>>, <<Adv(Result(s, t, s.wr[kid].st), t), Tau>>}
         ELSE One(<<Adv(Result(s, t, s.wr[kid].st), t), Tau>>)
    [] f.pc = "pollp" ->
         LET c == Kids(n)[f.k]
             later == <<Adv(Repl(s, t, Frame(n, "polls", f.k + 1)), t), Tau>>
         IN IF s.stk[c] = <<>> THEN {<<Adv(Repl(s, t, Frame(n, "tickp", f.k)), t), Tau>>, later} ELSE One(later)
    [] f.pc = "halt" ->          \* one node after the other, from the top
         LET s1 == [s EXCEPT !.flag[f.k] = TRUE]
         IN One(<<IF f.k = n + d.z - 1 THEN Adv(Pop(s1, t), t) ELSE Repl(s1, t, Frame(n, "halt", f.k + 1)), Tau>>)
    [] f.pc = "join" ->
         IF \A i \in 1..Len(Kids(n)) : s.stk[Kids(n)[i]] = <<>> THEN One(<<Adv(s, t), Tau>>) ELSE {}
    [] f.pc = "clear" ->
         IF s.st[n] # "NS" THEN One(<<[s EXCEPT !.st[n] = "NS"], StEv(n, "NS")>>)
         ELSE One(<<Adv(Pop([s EXCEPT !.flag[n] = FALSE], t), t), Tau>>)
    [] OTHER -> {}

\* ==== what comes next ====
NextKids(s, n) ==
  LET d == N(n) IN
  \* what has finished is executed again only after a reset, in a loop
  CASE d.t \in {"Seq", "Fb", "RSeq", "RFb"} /\ Finished(s.st[n]) -> <<Kids(n)[1]>>
    [] d.t \in {"Seq", "Fb", "RSeq", "RFb"} ->
         LET i == FirstLeft(s, Kids(n), Pass(n), 1)
         IN IF i = 0 THEN <<>> ELSE IF Ready(s.st[Kids(n)[i]]) THEN <<Kids(n)[i]>> ELSE <<>>
    [] d.t = "Choice" ->
         IF s.mem[n].cnt >= Len(s.mem[n].lst) THEN <<>>
         ELSE LET c == s.mem[n].lst[s.mem[n].cnt + 1] IN IF Ready(s.st[c]) \/ s.st[c] = "SU" THEN <<c>> ELSE <<>>
    [] d.t = "Par" ->
         IF ~s.wr[Kids(n)[1]].up \/ Finished(s.st[n]) THEN Kids(n) ELSE SelectSeq(Kids(n), LAMBDA c : Ready(s.wr[c].st))
    [] OTHER -> Kids(n)
RECURSIVE NextClosure(_, _)
NextClosure(s, X) ==
  LET Y == X \cup UNION {Range(NextKids(s, n)) : n \in X} IN IF Y = X THEN X ELSE NextClosure(s, Y)
\* all instructions the next tick may execute
NextInstrs(s) == IF Ready(s.st[1]) THEN NextClosure(s, {1}) ELSE {}
RECURSIVE LeavesFrom(_, _)
\* the last ones of every branch, level by level
LeavesFrom(s, level) ==
  IF level = <<>> THEN <<>>
  ELSE LET leaf == SelectSeq(level, LAMBDA n : NextKids(s, n) = <<>>)
           RECURSIVE Cat(_)
           Cat(i) == IF i > Len(level) THEN <<>> ELSE NextKids(s, level[i]) \o Cat(i + 1)
       IN leaf \o LeavesFrom(s, Cat(1))
NextLeaves(s) == IF Ready(s.st[1]) THEN LeavesFrom(s, <<1>>) ELSE <<>>

\* ==== what others do to the tree ====
Idle(s, t) == s.stk[t] = <<>>
Tick(s) == Adv(Push(s, MainThread, Frame(1, "exec", 0)), MainThread)
Reset(s) == Adv(Push(s, MainThread, Frame(1, "reset", 0)), MainThread)
Halt(s, t) == Push(s, t, Frame(1, "halt", 1))
=============================================================================

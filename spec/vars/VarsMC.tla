-------------------------------- MODULE VarsMC --------------------------------
(* Everything a few threads can do to a small workspace, one with a local    *)
(* variable and one with variables that come and go.                         *)
EXTENDS Vars
CONSTANTS Ths,       \* threads with calls, the first one (0) controls the workspace
          Which,     \* variables in use
          MaxCalls,
          MaxTime
AllThs == {0, 1}
VARIABLES calls,     \* calls made
          g          \* what has happened, for the properties
mvars == <<vars, calls, g>>
Def(kind, dyn, init, id) == [kind |-> kind, dyn |-> dyn, init |-> init, vis |-> "down", val |-> IF kind = "Test" THEN init ELSE EmptyV,
                             av |-> FALSE, id |-> id, hs |-> id # "", ht |-> id # "", bad |-> FALSE, after |-> FALSE, vt |-> "no", told |-> FALSE]
I32(i) == IntV("int32", i)
Pair == [EmptyV EXCEPT !.t = "struct", !.n = <<"a", "b">>, !.m = <<IntV("uint8", 1), I32(2)>>]
Path(n) == <<[n |-> n, i |-> 0]>>
VarsOf == CASE Which = "local" -> [v |-> Def("Local", FALSE, I32(0), "")]
            [] Which = "struct" -> [v |-> Def("Local", FALSE, Pair, "")]
            [] Which = "any" -> [v |-> Def("Local", TRUE, EmptyV, "")]
            [] Which = "test" -> [v |-> Def("Test", FALSE, I32(0), "p"), w |-> Def("Test", FALSE, I32(0), "p")]
            [] Which = "wait" -> [v |-> Def("Test", FALSE, I32(0), "")]
            [] Which = "equal" -> [v |-> Def("Local", FALSE, I32(0), ""), w |-> Def("Local", FALSE, I32(1), "")]
O(op, name, path, v) == [NoOp EXCEPT !.op = op, !.name = name, !.path = path, !.v = v]
OpsOf ==
  CASE Which = "local" -> {O("get", "v", <<>>, EmptyV), O("set", "v", <<>>, I32(1)), O("set", "v", <<>>, Str("x")), O("reset", "v", <<>>, EmptyV)}
    [] Which = "struct" -> {O("get", "v", <<>>, EmptyV), O("get", "v", Path("a"), I32(7)), O("set", "v", Path("a"), I32(300)), O("set", "v", Path("a"), I32(3)),
                            O("set", "v", Path("c"), I32(3)), O("set", "v", <<>>, I32(3))}
    [] Which = "any" -> {O("get", "v", <<>>, EmptyV), O("set", "v", <<>>, I32(1)), O("set", "v", <<>>, Pair), O("set", "v", Path("b"), Str("x")), O("avl", "v", <<>>, EmptyV)}
    [] Which = "test" -> {O("avl", "v", <<>>, EmptyV), O("reset", "w", <<>>, EmptyV)}
    [] Which = "wait" -> {[O("wait", "v", <<>>, EmptyV) EXCEPT !.T = 2, !.b = TRUE], [O("wait", "v", <<>>, EmptyV) EXCEPT !.T = 1, !.b = FALSE],
                          [O("avail", "v", <<>>, EmptyV) EXCEPT !.b = TRUE], [O("avail", "v", <<>>, EmptyV) EXCEPT !.b = FALSE]}
    [] Which = "equal" -> {O("set", "v", <<>>, I32(1)), O("set", "w", <<>>, I32(2)), [NoOp EXCEPT !.op = "tick", !.inst = 1], [NoOp EXCEPT !.op = "halt", !.inst = 1]}
Ctl == IF Which = "equal" THEN {"setup"} ELSE {"setup", "teardown"}

NoG == [ran |-> [sa |-> 0, ta |-> 0], su |-> 0, td |-> 0, notes |-> 0, done |-> 0, ok |-> 0, held |-> [t \in ThreadIds |-> {}], t0 |-> [t \in ThreadIds |-> 0]]
MInit == /\ vr = VarsOf /\ order = IF "w" \in DOMAIN VarsOf THEN <<"v", "w">> ELSE <<"v">>
         /\ ist = IF Which = "equal" THEN <<[name |-> "v", other |-> "w", vtype |-> "", T |-> 1, started |-> FALSE, lo |-> 0, hi |-> 0, st |-> "NS", halted |-> FALSE]>> ELSE <<>>
         /\ issetup = FALSE /\ tacts = {} /\ ctl = NoCtl
         /\ ops = [th \in ThreadIds |-> NoOp] /\ now = 0
         /\ calls = 0 /\ g = NoG
\* ghosts: the answers the variable has given during a wait or a look
Holds(V, o) == IF o.op = "tick" THEN GetRes(V, "v", <<>>, EmptyV).ok /\ GetRes(V, "v", <<>>, EmptyV) = GetRes(V, "w", <<>>, EmptyV)
               ELSE IF o.op \in {"wait"} THEN Avail(V, o.name) = o.b
               ELSE FALSE
Note(h) == [h EXCEPT !.held = [t \in ThreadIds |-> IF ops'[t].op = "" THEN {} ELSE @[t] \union {Holds(vr', ops'[t])}],
                     !.t0 = [t \in ThreadIds |-> IF ops[t].op = "" THEN now ELSE @[t]]]
Same == g' = Note(g) /\ UNCHANGED calls
Calls(th) == /\ calls < MaxCalls /\ calls' = calls + 1
             /\ (\/ \E o \in OpsOf : (o.op = "tick" => ist[1].st \notin {"SU", "FA"} /\ \A t \in ThreadIds : ops[t].op # "tick") /\ (o.op = "wait" => now + o.T <= MaxTime) /\ Call(th, o)
                 \/ th = 0 /\ "setup" \in Ctl /\ CallSetup(th)
                 \/ th = 0 /\ "teardown" \in Ctl /\ (\A t \in ThreadIds : ops[t].op # "reset") /\ CallTeardown(th))
             /\ g' = Note(g)
Results(th) == ops[th].poss \union ops[th].late \union {[ok |-> TRUE, v |-> EmptyV], [ok |-> FALSE, v |-> EmptyV]}
Effects(th, name) ==
  \/ (Settle(th, name) \/ Down(th, name) \/ TestSetup(th, name) \/ TestTeardown(th, name) \/ (\E b \in BOOLEAN : Switch(th, name, b))) /\ Same
  \/ InitialNotify(th, name, vr[name].init, TRUE) /\ Same
  \/ Notify(th, name, SetRes(vr, name, ops[th].path, ops[th].v).v, TRUE) /\ g' = [Note(g) EXCEPT !.notes = @ + 1] /\ UNCHANGED calls
  \/ \E b \in BOOLEAN : NotifyAvail(th, name, EmptyV, b) /\ Same
Actions(th) ==
  \/ SetupAction(th, "p") /\ g' = [Note(g) EXCEPT !.ran.sa = @ + 1] /\ UNCHANGED calls
  \/ TeardownAction(th, "p") /\ g' = [Note(g) EXCEPT !.ran.ta = @ + 1] /\ UNCHANGED calls
\* the driver calls
Returns(th) ==
  \/ RetSetup(th, TRUE) /\ g' = [Note(g) EXCEPT !.su = IF ctl.pc = "setup" THEN @ + 1 ELSE @] /\ UNCHANGED calls
  \/ RetTeardown(th) /\ Same
  \/ \E r \in Results(th) : Ret(th, ops[th].op, r.ok, r.v)
                        /\ g' = [Note(g) EXCEPT !.ok = IF ops[th].op = "set" /\ r.ok THEN @ + 1 ELSE @]
                        /\ UNCHANGED calls
  \/ \E st \in {"SU", "FA", "RU", "NF"} : RetTick(th, st) /\ Same
Time == now < MaxTime /\ Advance(now + 1, TRUE) /\ Same
MNext == (\E th \in Ths : Calls(th) \/ (\E n \in Names : Effects(th, n)) \/ Actions(th) \/ Returns(th)) \/ Time
Safe == MInit /\ [][MNext]_mvars
Fair == /\ WF_mvars(Time)
        /\ \A th \in Ths : WF_mvars((\E n \in Names : Effects(th, n)) \/ Actions(th) \/ Returns(th))
Live == Safe /\ Fair

\* ==== C19 ====
\* what a read returns is what was last written, unless it overlaps a write (or the setup or teardown of the variable)
Quiet(th) == \A t \in Ths \ {th} : ops[t].op \notin {"set", "setup", "teardown", "reset"}
RetOf(th) == ops[th].op # "" /\ ops'[th].op = ""
SetFailed(th) == ops[th].op = "set" /\ ops'[th].op = "" /\ ~ops[th].done
RefusedChangesNothing == [][\A th \in Ths : SetFailed(th) => vr' = vr]_mvars
\* values change at notifications only, and at most one call makes a notification, once
ChangeIsNotified == [][\A n \in Names : n \in DOMAIN vr' /\ vr'[n].vis = "up" /\ vr[n].vis = "up" /\ vr'[n].val # vr[n].val => g'.notes = g.notes + 1]_mvars
EachNotifiedOnce == (\A th \in Ths : ops[th].op # "set") => g.notes = g.ok
\* every write is answered, and every read
Answered == \A th \in Ths : (ops[th].op \in {"get", "set", "avl"}) ~> (ops[th].op = "")
\* ==== C20 ====
Balanced == /\ g.ran.sa >= g.ran.ta /\ g.ran.sa <= g.ran.ta + 1
            /\ g.ran.sa <= g.su + 1
            /\ (issetup => Which # "test" \/ g.ran.sa = g.ran.ta + 1)
            /\ (~issetup /\ ctl.pc = "idle" => g.ran.sa = g.ran.ta)
NeverHalf == ctl.pc = "idle" /\ (\A th \in ThreadIds : ops[th].op # "reset") => \A n \in Names : (vr[n].vis = "up") = issetup
CtlReturns == \A th \in Ths : (ops[th].op \in {"setup", "teardown", "reset"}) ~> (ops[th].op = "")
\* ==== C21 ====
Untimely(th) == now - g.t0[th] > ops[th].T
\* a wait never goes beyond its timeout, and says what was
InTimeMC == \A th \in Ths : ops[th].op = "wait" => now <= ops[th].t0 + ops[th].T
WaitSays == \A th \in Ths : ops[th].op = "wait" => \A p \in ops[th].poss : p.ok \in g.held[th]
WaitFailsLate == \A th \in Ths : ops[th].op = "wait" /\ ops[th].late # {} => now >= ops[th].t0 + ops[th].T
WaitEnds == \A th \in Ths : (ops[th].op = "wait") ~> (ops[th].op = "")
TickSaysTrue == [][\A th \in Ths : ops[th].op = "tick" /\ ops'[th].op = "" /\ ist'[1].st = "SU" => [ok |-> TRUE, v |-> EmptyV] \in ops[th].poss]_mvars
TickNotEarly == [][\A th \in Ths : ops[th].op = "tick" /\ ops'[th].op = "" /\ ist'[1].st = "FA" => ist[1].halted \/ now >= ist[1].T]_mvars
===============================================================================

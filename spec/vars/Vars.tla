--------------------------------- MODULE Vars ---------------------------------
(***************************************************************************)
(* A workspace and its variables: life cycle, reading and writing from     *)
(* several threads, notifications, waiting for variables.                  *)
(*                                                                         *)
(* A write takes effect at its notification. The effect of everything else *)
(* that a thread asks for (reading, a refused write, looking whether a     *)
(* variable is available) is the one it has at some moment between call    *)
(* and return: ops[th].poss collects what is possible in the states that   *)
(* the call has seen so far.                                               *)
(***************************************************************************)
EXTENDS Values, FiniteSets
VARIABLES order,    \* names of the variables in order of addition
          vr,       \* the variables
          issetup,  \* the workspace is set up
          tacts,    \* identifiers whose teardown action is due
          ctl,      \* what a setup or teardown still has to do
          ops,      \* what each thread is doing
          ist,      \* waiting instructions
          now       \* time in microseconds
vars == <<order, vr, issetup, tacts, ctl, ops, ist, now>>
ThreadIds == 0..7
NoOp == [op |-> "", name |-> "", path |-> <<>>, v |-> EmptyV, b |-> FALSE, T |-> 0, t0 |-> 0, inst |-> 0, done |-> FALSE, half |-> FALSE,
         poss |-> {}, late |-> {}, seen |-> {}, halted |-> FALSE]
NoCtl == [pc |-> "idle", todo |-> {}, sa |-> {}, bad |-> FALSE]
Init == /\ order = <<>> /\ vr = <<>> /\ issetup = FALSE /\ tacts = {} /\ ctl = NoCtl
        /\ ops = [th \in ThreadIds |-> NoOp] /\ ist = <<>> /\ now = 0
Names == DOMAIN vr

(***************************************************************************)
(* What the variables answer. kind: "Local", or "Test" for variables of    *)
(* which the driver switches the availability.                             *)
(***************************************************************************)
Readable(w) == w.vis = "up" /\ (IF w.kind = "Local" THEN ~IsEmpty(w.val) ELSE w.av)
Avail(V, name) == name \in DOMAIN V /\ V[name].vis = "up" /\ (V[name].kind = "Local" \/ V[name].av)
GetRes(V, name, path, target) ==
  IF name \notin DOMAIN V THEN Fail(target)
  ELSE LET w == V[name] IN
       IF ~Readable(w) THEN Fail(target)
       ELSE IF ~HasField(w.val, path) THEN Fail(target)
       ELSE AssignIfEmptyOrConvert(target, Field(w.val, path))
SetWhole(w, v) ==
  IF w.kind = "Test" THEN (IF w.av THEN Done(v) ELSE Fail(w.val))
  ELSE IF w.dyn THEN Done(v) ELSE AssignIfEmptyOrConvert(w.val, v)
SetRes(V, name, path, v) ==
  IF name \notin DOMAIN V THEN Fail(EmptyV)
  ELSE LET w == V[name] IN
       IF w.vis /= "up" THEN Fail(w.val)
       ELSE IF path = <<>> THEN SetWhole(w, v)
       ELSE IF ~Readable(w) THEN Fail(w.val)
       ELSE IF ~HasField(w.val, path) THEN Fail(w.val)
       ELSE LET r == SetField(w.val, path, v, FALSE) IN IF r.ok THEN SetWhole(w, r.v) ELSE Fail(w.val)

\* What can happen to a waiting instruction looks at: <<variable, holds>>
Some(V, name) == LET r == GetRes(V, name, <<>>, EmptyV) IN r.ok /\ ~IsEmpty(r.v)
EqualNow(V, a, b) == Some(V, a) /\ GetRes(V, b, <<>>, EmptyV).ok
\* A condition on one variable is looked at once; one on two variables looks at the first, then at the second.
Look(V, o, I) ==
  CASE I.vtype /= "" -> [o EXCEPT !.seen = @ \union {<<n, Avail(V, n)>> : n \in {k \in DOMAIN V : V[k].kind = I.vtype}}]
    [] I.other = "" -> [o EXCEPT !.poss = @ \union {[ok |-> Some(V, I.name), v |-> EmptyV]}]
    [] OTHER -> LET f == o.seen \union {GetRes(V, I.name, <<>>, EmptyV)}
                    s == GetRes(V, I.other, <<>>, EmptyV) IN
                [o EXCEPT !.seen = f,
                          !.poss = @ \union {[ok |-> x.ok /\ ~IsEmpty(x.v) /\ s.ok /\ Equal(x.v, s.v), v |-> EmptyV] : x \in f}]
\* The operation o in a state with variables V at time t.
Upd(o, V, t, inst) ==
  CASE o.op = "get" -> [o EXCEPT !.poss = @ \union {GetRes(V, o.name, o.path, o.v)}]
    [] o.op = "set" -> IF o.done \/ SetRes(V, o.name, o.path, o.v).ok THEN o ELSE [o EXCEPT !.poss = @ \union {Fail(EmptyV)}]
    [] o.op = "avl" -> [o EXCEPT !.poss = @ \union {[ok |-> Avail(V, o.name), v |-> EmptyV]}]
    [] o.op = "wait" -> LET c == [ok |-> Avail(V, o.name) = o.b, v |-> EmptyV] IN
                        [o EXCEPT !.poss = @ \union {c}, !.late = IF t >= o.t0 + o.T THEN @ \union {c} ELSE @]
    [] o.op = "tick" -> Look(V, o, inst[o.inst])
    [] OTHER -> o
UpdAll(V, O) == [th \in ThreadIds |-> Upd(O[th], V, now, ist)]

(***************************************************************************)
(* Time                                                                    *)
(***************************************************************************)
\* A thread that waits and has nothing to wait for (any more) is not left waiting while time goes by, once it has been
\* notified since (a variable that is set up notifies its value before it can be used).
Waits(th) == ops[th].op = "wait"
InTime(t) == \A th \in ThreadIds : Waits(th) =>
               /\ ops[th].name \in Names
               /\ (vr[ops[th].name].told => Avail(vr, ops[th].name) /= ops[th].b)
               /\ t <= ops[th].t0 + ops[th].T
Advance(t, strict) ==
  /\ t > now /\ (strict => InTime(t))
  /\ now' = t
  /\ ops' = [th \in ThreadIds |-> Upd(ops[th], vr, t, ist)]
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, ist>>

(***************************************************************************)
(* Building the workspace                                                  *)
(***************************************************************************)
AllIdle == \A th \in ThreadIds : ops[th].op = ""
Add(name, kind, dyn, init, id, hs, ht, bad, ok) ==
  /\ AllIdle /\ ok = (name \notin Names)
  /\ IF ok THEN /\ order' = Append(order, name)
                /\ vr' = [n \in Names \union {name} |-> IF n = name
                          THEN [kind |-> kind, dyn |-> dyn, init |-> init, vis |-> "down", val |-> IF kind = "Test" THEN init ELSE EmptyV,
                                av |-> FALSE, id |-> id, hs |-> hs, ht |-> ht, bad |-> bad, after |-> issetup, vt |-> "no", told |-> FALSE]
                          ELSE vr[n]]
     ELSE UNCHANGED <<order, vr>>
  /\ UNCHANGED <<issetup, tacts, ctl, ops, ist, now>>
TellNames(l) == AllIdle /\ l = order /\ UNCHANGED vars
TellSetup(b) == AllIdle /\ b = issetup /\ UNCHANGED vars
AddInst(I) == /\ AllIdle
              /\ ist' = Append(ist, [name |-> I.name, other |-> I.other, vtype |-> I.vtype, T |-> I.T, started |-> FALSE, lo |-> 0, hi |-> 0,
                                     st |-> "NS", halted |-> FALSE])
              /\ UNCHANGED <<order, vr, issetup, tacts, ctl, ops, now>>

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
Call(th, o) ==
  /\ ops[th].op = "" /\ o.op \in {"get", "set", "avl", "wait", "avail", "reset", "tick", "halt", "irst"}
  /\ (o.op = "avail" => o.name \in Names)
  /\ (o.op = "reset" => issetup)
  /\ LET first == o.op = "tick" /\ ~ist[o.inst].started
         I2 == CASE first -> [ist EXCEPT ![o.inst].started = TRUE, ![o.inst].lo = now + ist[o.inst].T]
                 [] o.op = "halt" -> [ist EXCEPT ![o.inst].halted = TRUE]
                 [] o.op = "irst" -> [ist EXCEPT ![o.inst].halted = FALSE, ![o.inst].started = FALSE, ![o.inst].hi = 0, ![o.inst].st = "NS"]
                 [] OTHER -> ist
         o2 == [o EXCEPT !.t0 = now, !.halted = (o.op = "tick" /\ ist[o.inst].halted)] IN
     /\ ist' = I2
     /\ ops' = [ops EXCEPT ![th] = Upd(o2, vr, now, I2)]
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, now>>

CallSetup(th) ==
  /\ ops[th].op = "" /\ ctl.pc = "idle"
  /\ ctl' = IF issetup THEN [NoCtl EXCEPT !.pc = "nothing"] ELSE [NoCtl EXCEPT !.pc = "setup", !.todo = Names]
  /\ ops' = [ops EXCEPT ![th] = [NoOp EXCEPT !.op = "setup"]]
  /\ UNCHANGED <<order, vr, issetup, tacts, ist, now>>
CallTeardown(th) ==
  /\ ops[th].op = "" /\ ctl.pc = "idle"
  /\ ctl' = [NoCtl EXCEPT !.pc = "teardown", !.todo = Names]
  /\ issetup' = FALSE
  /\ ops' = [ops EXCEPT ![th] = [NoOp EXCEPT !.op = "teardown"]]
  /\ UNCHANGED <<order, vr, tacts, ist, now>>

(***************************************************************************)
(* Setup of one variable, by the setup of the workspace or a reset of the  *)
(* variable: a local variable notifies its initial value, then it can be   *)
(* used.                                                                   *)
(***************************************************************************)
Resets(th, name) == ops[th].op = "reset" /\ ops[th].name = name
SetsUp(th, name) == ops[th].op = "setup" /\ ctl.pc = "setup" /\ name \in ctl.todo /\ ~ctl.bad
InitialNotify(th, name, v, conn) ==
  LET w == vr[name]
      V2 == [vr EXCEPT ![name].vis = "half", ![name].val = w.init] IN
  /\ w.kind = "Local" /\ w.vis = "down" /\ v = w.init /\ conn
  /\ \/ SetsUp(th, name) /\ UNCHANGED ops
     \/ /\ Resets(th, name) /\ ops[th].done /\ ~ops[th].half /\ ~ops[th].b
        /\ ops' = [ops EXCEPT ![th].half = TRUE]
  /\ vr' = V2
  /\ UNCHANGED <<order, issetup, tacts, ctl, ist, now>>
TestSetup(th, name) ==
  LET w == vr[name] IN
  /\ w.kind = "Test" /\ w.vis = "down" /\ w.vt /= "must"
  /\ \/ /\ SetsUp(th, name) /\ UNCHANGED ops
        /\ ctl' = [ctl EXCEPT !.bad = w.bad]
     \/ /\ Resets(th, name) /\ ops[th].done /\ ~ops[th].half /\ ~ops[th].b
        /\ ops' = [ops EXCEPT ![th].half = TRUE] /\ UNCHANGED ctl
  /\ vr' = [vr EXCEPT ![name].vis = "half"]
  /\ UNCHANGED <<order, issetup, tacts, ist, now>>
\* the variable can be used from here on
Settle(th, name) ==
  LET w == vr[name]
      V2 == [vr EXCEPT ![name].vis = "up", ![name].after = FALSE, ![name].told = @ /\ w.kind = "Local"] IN
  /\ w.vis = "half" /\ ~ctl.bad
  /\ \/ /\ SetsUp(th, name)
        /\ ctl' = [ctl EXCEPT !.todo = @ \ {name}, !.sa = IF w.id /= "" /\ w.hs THEN @ \union {w.id} ELSE @]
        /\ ops' = UpdAll(V2, ops)
     \/ /\ Resets(th, name) /\ ops[th].half
        /\ ops' = UpdAll(V2, [ops EXCEPT ![th].half = FALSE, ![th].b = TRUE])
        /\ UNCHANGED ctl
  /\ vr' = V2
  /\ UNCHANGED <<order, issetup, tacts, ist, now>>
\* ... and no longer from here on
TearsDown(th, name) == ops[th].op = "teardown" /\ ctl.pc = "teardown" /\ name \in ctl.todo /\ tacts = {}
\* Setup, reset and teardown of a variable exclude each other.
Within(name) == vr[name].vt = "must" \/ \E t \in ThreadIds : Resets(t, name) /\ ops[t].done /\ ~ops[t].b
Down(th, name) ==
  LET V2 == [vr EXCEPT ![name].vis = "down", ![name].told = FALSE,
                       ![name].vt = IF vr[name].kind /= "Test" THEN "no" ELSE IF vr[name].vis = "down" THEN "may" ELSE "must"] IN
  /\ ~Within(name)
  /\ \/ /\ TearsDown(th, name)
        /\ ctl' = [ctl EXCEPT !.todo = @ \ {name}]
        /\ ops' = UpdAll(V2, ops)
     \/ /\ Resets(th, name) /\ ~ops[th].done
        /\ ops' = UpdAll(V2, [ops EXCEPT ![th].done = TRUE]) /\ UNCHANGED ctl
  /\ vr' = V2
  /\ UNCHANGED <<order, issetup, tacts, ist, now>>

\* the teardown of the variable itself is executed
TestTeardown(th, name) ==
  /\ (ops[th].op = "teardown" /\ name \notin ctl.todo) \/ (Resets(th, name) /\ ops[th].done /\ ~ops[th].half /\ ~ops[th].b)
  /\ vr[name].vt /= "no"
  /\ vr' = [vr EXCEPT ![name].vt = "no"]
  /\ UNCHANGED <<order, issetup, tacts, ctl, ops, ist, now>>

SetupAction(th, id) ==
  /\ ops[th].op = "setup" /\ ctl.pc = "setup" /\ ctl.todo = {} /\ id \in ctl.sa
  /\ ctl' = [ctl EXCEPT !.sa = @ \ {id}]
  /\ UNCHANGED <<order, vr, issetup, tacts, ops, ist, now>>
TeardownAction(th, id) ==
  /\ ops[th].op \in {"teardown", "destroy"} /\ id \in tacts
  /\ tacts' = tacts \ {id}
  /\ UNCHANGED <<order, vr, issetup, ctl, ops, ist, now>>
RetSetup(th, ok) ==
  /\ ops[th].op = "setup"
  /\ CASE ctl.pc = "nothing" -> ok /\ UNCHANGED <<issetup, tacts>>
       [] ctl.bad -> ~ok /\ UNCHANGED <<issetup, tacts>>
       [] OTHER -> /\ ok /\ ctl.todo = {} /\ ctl.sa = {}
                   /\ issetup' = TRUE
                   /\ tacts' = {vr[n].id : n \in {k \in Names : vr[k].id /= "" /\ vr[k].ht}}
  /\ ctl' = NoCtl /\ ops' = [ops EXCEPT ![th] = NoOp]
  /\ UNCHANGED <<order, vr, ist, now>>
RetTeardown(th) ==
  /\ ops[th].op = "teardown" /\ ctl.todo = {} /\ tacts = {} /\ \A n \in Names : vr[n].vt /= "must"
  /\ ctl' = NoCtl /\ ops' = [ops EXCEPT ![th] = NoOp]
  /\ UNCHANGED <<order, vr, issetup, tacts, ist, now>>
\* the end of the workspace
CallDestroy(th) ==
  /\ AllIdle /\ ops' = [ops EXCEPT ![th] = [NoOp EXCEPT !.op = "destroy"]]
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, ist, now>>
RetDestroy(th) ==
  /\ ops[th].op = "destroy" /\ tacts = {}
  /\ ops' = [ops EXCEPT ![th] = NoOp]
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, ist, now>>

(***************************************************************************)
(* Writing, availability                                                   *)
(***************************************************************************)
Notify(th, name, v, conn) ==
  LET o == ops[th]
      r == SetRes(vr, name, o.path, o.v)
      V2 == [vr EXCEPT ![name].val = v, ![name].told = TRUE] IN
  /\ o.op = "set" /\ o.name = name /\ ~o.done /\ conn
  /\ r.ok /\ v = r.v
  /\ vr' = V2
  /\ ops' = UpdAll(V2, [ops EXCEPT ![th].done = TRUE])
  /\ UNCHANGED <<order, issetup, tacts, ctl, ist, now>>
\* the driver switches the availability of a variable, and then notifies
Switch(th, name, b) ==
  LET V2 == [vr EXCEPT ![name].av = b, ![name].told = FALSE] IN
  /\ ops[th].op = "avail" /\ ops[th].name = name /\ ops[th].b = b /\ ~ops[th].done
  /\ vr' = V2
  /\ ops' = UpdAll(V2, [ops EXCEPT ![th].done = TRUE])
  /\ UNCHANGED <<order, issetup, tacts, ctl, ist, now>>
NotifyAvail(th, name, v, conn) ==
  /\ ops[th].op = "avail" /\ ops[th].name = name /\ ops[th].done /\ ~ops[th].half /\ conn = ops[th].b
  /\ ops' = [ops EXCEPT ![th].half = TRUE]
  /\ vr' = [vr EXCEPT ![name].told = TRUE]
  /\ UNCHANGED <<order, issetup, tacts, ctl, ist, now>>

(***************************************************************************)
(* Returns                                                                 *)
(***************************************************************************)
Free(th) == ops' = [ops EXCEPT ![th] = NoOp]
Ret(th, op, ok, v) ==
  LET o == ops[th] IN
  /\ o.op = op
  /\ CASE op = "get" -> [ok |-> ok, v |-> v] \in o.poss
       [] op = "set" -> IF ok THEN o.done ELSE o.poss /= {} /\ ~o.done
       [] op = "avl" -> [ok |-> ok, v |-> EmptyV] \in o.poss
       [] op = "wait" -> CASE o.name \notin Names -> ~ok
                           [] ok -> [ok |-> TRUE, v |-> EmptyV] \in o.poss
                           [] OTHER -> [ok |-> FALSE, v |-> EmptyV] \in o.late
       [] op = "reset" -> IF o.name \in Names THEN ok /\ o.b ELSE ~ok
       [] op = "avail" -> o.half
       [] op \in {"halt", "irst"} -> TRUE
       [] OTHER -> FALSE
  /\ Free(th)
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, ist, now>>
\* One execution of a waiting instruction: what it looked at and what it concluded.
TickSays(o, b, I) ==
  IF I.vtype = "" THEN [ok |-> b, v |-> EmptyV] \in o.poss
  ELSE IF b THEN \A n \in {k \in Names : vr[k].kind = I.vtype} : <<n, TRUE>> \in o.seen
  ELSE \E x \in o.seen : ~x[2]
RetTick(th, st) ==
  LET o == ops[th]
      I == ist[o.inst]
      hi == IF I.hi = 0 THEN now + I.T ELSE I.hi
      fine == I.T >= 0 IN
  /\ o.op = "tick"
  /\ CASE ~fine -> st = "FA"
       [] st = "SU" -> ~o.halted /\ TickSays(o, TRUE, I)
       [] st = "FA" -> I.halted \/ (TickSays(o, FALSE, I) /\ now >= I.lo)
       [] st = "RU" -> I.halted \/ (TickSays(o, FALSE, I) /\ o.t0 <= hi)  \* (times are whole units; within the last one, it may or may not be over)
       [] OTHER -> st = "NF" /\ I.halted
  /\ ist' = [ist EXCEPT ![o.inst].st = st, ![o.inst].hi = hi]
  /\ Free(th)
  /\ UNCHANGED <<order, vr, issetup, tacts, ctl, now>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* A variable that is not typed dynamically keeps the type it starts with.
KeepsType == \A n \in Names : vr[n].kind = "Local" /\ ~vr[n].dyn /\ vr[n].vis = "up" /\ ~IsEmpty(vr[n].init) => SameType(vr[n].val, vr[n].init)
\* Nothing can be used before a setup has begun or after a teardown has ended.
OnlyWhileSetUp == issetup = FALSE /\ ctl.pc = "idle" => \A n \in Names : vr[n].vis /= "up" \/ vr[n].bad \/ \E k \in Names : vr[k].bad
UsableWhenSetUp == issetup /\ (\A th \in ThreadIds : ops[th].op /= "reset") => \A n \in Names : vr[n].vis = "up" \/ vr[n].after
ActionsBalanced == tacts /= {} => issetup \/ ctl.pc = "teardown" \/ \E th \in ThreadIds : ops[th].op = "destroy"
===============================================================================

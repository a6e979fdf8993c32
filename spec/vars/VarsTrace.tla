------------------------------- MODULE VarsTrace -------------------------------
(***************************************************************************)
(* Recorded executions of the real workspace and variables.                *)
(***************************************************************************)
EXTENDS TraceLib, Vars
Strict == Traces[tid].strict
TInit == StartTrace /\ Init
At == E.t = now
OpOf(e) == [NoOp EXCEPT !.op = e.op, !.name = e.name, !.path = e.path, !.v = e.v, !.b = e.b, !.T = e.T, !.inst = e.inst]
Event ==
  /\ More /\ At
  /\ \/ /\ Is("add") /\ Add(E.name, E.kind, E.dyn, E.init, E.id, E.hs, E.ht, E.bad, E.ok)
     \/ /\ Is("names") /\ TellNames(E.l)
     \/ /\ Is("isset") /\ TellSetup(E.b)
     \/ /\ Is("inst") /\ AddInst(E)
     \/ /\ Is("call") /\ E.op = "setup" /\ CallSetup(E.th)
     \/ /\ Is("call") /\ E.op = "teardown" /\ CallTeardown(E.th)
     \/ /\ Is("call") /\ E.op = "destroy" /\ CallDestroy(E.th)
     \/ /\ Is("call") /\ E.op \notin {"setup", "teardown", "destroy"} /\ Call(E.th, OpOf(E))
     \/ /\ Is("ret") /\ E.op = "setup" /\ RetSetup(E.th, E.ok)
     \/ /\ Is("ret") /\ E.op = "teardown" /\ RetTeardown(E.th)
     \/ /\ Is("ret") /\ E.op = "destroy" /\ RetDestroy(E.th)
     \/ /\ Is("ret") /\ E.op = "tick" /\ RetTick(E.th, E.st)
     \/ /\ Is("ret") /\ E.op \notin {"setup", "teardown", "destroy", "tick"} /\ Ret(E.th, E.op, E.ok, E.v)
     \/ /\ Is("n") /\ (Notify(E.th, E.name, E.v, E.c) \/ InitialNotify(E.th, E.name, E.v, E.c) \/ NotifyAvail(E.th, E.name, E.v, E.c))
     \/ /\ Is("vs") /\ TestSetup(E.th, E.name)
     \/ /\ Is("vt") /\ TestTeardown(E.th, E.name)
     \/ /\ Is("sw") /\ Switch(E.th, E.name, E.b)
     \/ /\ Is("sa") /\ SetupAction(E.th, E.id)
     \/ /\ Is("ta") /\ TeardownAction(E.th, E.id)
     \/ /\ Is("end") /\ AllIdle /\ UNCHANGED vars
  /\ Consume
Silent ==
  /\ More /\ Keep
  /\ \/ /\ E.t > now /\ Advance(E.t, Strict)
     \/ \E th \in ThreadIds, n \in Names : Settle(th, n) \/ Down(th, n)
TNext == Event \/ Silent
TSpec == TInit /\ [][TNext]_<<tid, l, vars>>
===============================================================================

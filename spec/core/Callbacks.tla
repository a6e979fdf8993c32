----------------------------- MODULE Callbacks ------------------------------
(***************************************************************************)
(* The named callback manager. Registrations and removals take effect at   *)
(* one instant. An event (exec) runs, as one unit, first the callbacks     *)
(* registered for everything, then those registered for its name, in order *)
(* of registration; no registration or removal takes effect in the middle, *)
(* so once a removal has returned no removed callback runs any more.       *)
(* A callback that throws ends the event.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Threads, NoThread
VARIABLES gen,    \* callbacks for every name: [id, lis, x] (x: throws)
          named,  \* callbacks for one name: [id, lis, x, name]
          pend,   \* per thread
          busy    \* the thread whose event is being executed
cvars == <<gen, named, pend, busy>>

Idle == [st |-> "idle"]
Done(ok) == [st |-> "done", ok |-> ok]
CInit == gen = <<>> /\ named = <<>> /\ pend = [t \in Threads |-> Idle] /\ busy = NoThread

\* c: the call, a record with field op
Call(t, c) == /\ pend[t] = Idle
              /\ pend' = [pend EXCEPT ![t] = [st |-> "call", c |-> c]]
              /\ UNCHANGED <<gen, named, busy>>
Calls(t, op) == pend[t].st = "call" /\ pend[t].c.op = op
Finish(t, ok) == pend' = [pend EXCEPT ![t] = Done(ok)]
Free == busy = NoThread

RegG(t) == /\ Calls(t, "regG") /\ Free
           /\ LET c == pend[t].c IN gen' = Append(gen, [id |-> c.id, lis |-> c.lis, x |-> c.x])
           /\ Finish(t, TRUE) /\ UNCHANGED <<named, busy>>
RegN(t) == /\ Calls(t, "regN") /\ Free
           /\ LET c == pend[t].c IN named' = Append(named, [id |-> c.id, lis |-> c.lis, x |-> c.x, name |-> c.name])
           /\ Finish(t, TRUE) /\ UNCHANGED <<gen, busy>>
\* an empty callback is refused
RegEmpty(t) == Calls(t, "regEmpty") /\ Finish(t, FALSE) /\ UNCHANGED <<gen, named, busy>>

Remove(t) == /\ (Calls(t, "unreg") \/ (Calls(t, "drop") /\ pend[t].c.lis # 0)) /\ Free
             /\ LET lis == pend[t].c.lis
                    Others(e) == e.lis # lis
                IN /\ gen' = SelectSeq(gen, Others) /\ named' = SelectSeq(named, Others)
                   /\ Finish(t, pend[t].c.op = "drop" \/ gen' # gen \/ named' # named)
             /\ UNCHANGED busy
\* a guard without listener does nothing
DropNothing(t) == Calls(t, "drop") /\ pend[t].c.lis = 0 /\ Finish(t, TRUE) /\ UNCHANGED <<gen, named, busy>>

Begin(t) == /\ Calls(t, "exec") /\ Free
            /\ busy' = t
            /\ LET n == pend[t].c.name
                   Mine(e) == e.name = n
               IN pend' = [pend EXCEPT ![t] = [st |-> "exec", c |-> pend[t].c, g |-> gen, n |-> SelectSeq(named, Mine)]]
            /\ UNCHANGED <<gen, named>>
\* one callback runs: id, whether as a generic one, with which name and argument
Run(t, id, generic, name, arg) ==
  /\ pend[t].st = "exec" /\ busy = t
  /\ LET p == pend[t]
         isg == p.g # <<>>
     IN /\ isg \/ p.n # <<>>
        /\ generic = isg
        /\ id = IF isg THEN Head(p.g).id ELSE Head(p.n).id
        /\ name = IF isg THEN p.c.name ELSE ""
        /\ arg = p.c.arg
        /\ IF (IF isg THEN Head(p.g).x ELSE Head(p.n).x)
           THEN Finish(t, FALSE) /\ busy' = NoThread
           ELSE /\ pend' = [pend EXCEPT ![t] = IF isg THEN [p EXCEPT !.g = Tail(@)] ELSE [p EXCEPT !.n = Tail(@)]]
                /\ UNCHANGED busy
  /\ UNCHANGED <<gen, named>>
EndExec(t) == /\ pend[t].st = "exec" /\ pend[t].g = <<>> /\ pend[t].n = <<>>
              /\ busy' = NoThread /\ Finish(t, TRUE) /\ UNCHANGED <<gen, named>>

Ret(t, ok) == pend[t] = Done(ok) /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<gen, named, busy>>
Silent(t) == RegG(t) \/ RegN(t) \/ RegEmpty(t) \/ Remove(t) \/ DropNothing(t) \/ Begin(t) \/ EndExec(t)

OneEvent == \A t \in Threads : pend[t].st = "exec" => busy = t
=============================================================================

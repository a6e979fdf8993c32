------------------------------- MODULE Input --------------------------------
(***************************************************************************)
(* Requests for user input. Client threads make requests and get a future  *)
(* for each; one server hands the requests, one at a time and in the order *)
(* in which they were made, to a provider and keeps its reply for the      *)
(* future of that request. A future that is dropped cancels its request:   *)
(* it is never handed to the provider, or its provider call is interrupted *)
(* and the reply is discarded. Shutting down interrupts the provider call  *)
(* in progress and waits for its end; nothing is handed out any more.      *)
(* Every operation of a client takes effect at one moment between its call *)
(* and its return.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads
VARIABLES q,      \* waiting requests: sequence of [id, tag]
          srv,    \* [ph, id, tag, keep, v]: what the server does
          rep,    \* replies that nobody has fetched yet: function from ids to replies
          used,   \* identifiers given out so far
          halt,   \* shutting down
          pend,   \* per thread: the operation it is in
          now
ivars == <<q, srv, rep, used, halt, pend, now>>

Free == [ph |-> "free", id |-> 0, tag |-> 0, keep |-> FALSE, v |-> 0]
Idle == [op |-> "idle", id |-> 0, x |-> 0, v |-> 0]
NotReady == -1        \* what fetching a reply gives that is not there
IInit == /\ q = <<>> /\ srv = Free /\ rep = <<>> /\ used = {} /\ halt = FALSE
         /\ pend = [t \in Threads |-> Idle] /\ now = 0
Ready(id) == id \in DOMAIN rep
Queued(id) == \E i \in 1..Len(q) : q[i].id = id
Without(s, id) == SelectSeq(s, LAMBDA r : r.id # id)
Drop(f, id) == [k \in DOMAIN f \ {id} |-> f[k]]
Done(t, v) == pend' = [pend EXCEPT ![t] = [pend[t] EXCEPT !.op = "done", !.v = v]]

\* ---- the server
Take == /\ srv.ph = "free" /\ ~halt
        /\ IF q = <<>> THEN FALSE
           ELSE srv' = [ph |-> "taken", id |-> Head(q).id, tag |-> Head(q).tag, keep |-> TRUE, v |-> 0] /\ q' = Tail(q)
        /\ UNCHANGED <<rep, used, halt, pend, now>>
Begin(id, tag) == /\ srv.ph = "taken" /\ srv.id = id /\ srv.tag = tag
                  /\ srv' = [srv EXCEPT !.ph = "in"] /\ UNCHANGED <<q, rep, used, halt, pend, now>>
Finish(id, v) == /\ srv.ph = "in" /\ srv.id = id
                 /\ srv' = [srv EXCEPT !.ph = "out", !.v = v] /\ UNCHANGED <<q, rep, used, halt, pend, now>>
Publish == /\ srv.ph = "out" /\ srv' = Free
           /\ rep' = IF srv.keep THEN [k \in DOMAIN rep \cup {srv.id} |-> IF k = srv.id THEN srv.v ELSE rep[k]] ELSE rep
           /\ UNCHANGED <<q, used, halt, pend, now>>

\* ---- the clients. Request: x is what is asked. Others: id is the request meant (0: its reply was fetched)
Call(t, op, id, x) == /\ pend[t].op = "idle"
                      /\ pend' = [pend EXCEPT ![t] = [op |-> op, id |-> id, x |-> x, v |-> 0]]
                      /\ UNCHANGED <<q, srv, rep, used, halt, now>>
Request(t, id) == /\ pend[t].op = "request" /\ id \notin used /\ id > 0
                  /\ used' = used \cup {id} /\ q' = Append(q, [id |-> id, tag |-> pend[t].x])
                  /\ Done(t, id) /\ UNCHANGED <<srv, rep, halt, now>>
IsReady(t) == /\ pend[t].op = "ready" /\ Done(t, IF Ready(pend[t].id) THEN 1 ELSE 0)
              /\ UNCHANGED <<q, srv, rep, used, halt, now>>
\* x is the moment at which the wait gives up
CanWait(t) == pend[t].id = 0 \/ Ready(pend[t].id) \/ now >= pend[t].x
Wait(t) == /\ pend[t].op = "wait" /\ CanWait(t) /\ Done(t, IF Ready(pend[t].id) THEN 1 ELSE 0)
           /\ UNCHANGED <<q, srv, rep, used, halt, now>>
Ident(t) == /\ pend[t].op = "id" /\ Done(t, pend[t].id) /\ UNCHANGED <<q, srv, rep, used, halt, now>>
Fetch(t) == /\ pend[t].op = "get"
            /\ IF Ready(pend[t].id) THEN Done(t, rep[pend[t].id]) /\ rep' = Drop(rep, pend[t].id)
               ELSE Done(t, NotReady) /\ UNCHANGED rep
            /\ UNCHANGED <<q, srv, used, halt, now>>
Served(id) == srv.ph # "free" /\ srv.id = id /\ srv.keep
\* dropping a future without anybody being interrupted
Cancel(t) == LET id == pend[t].id IN
  /\ pend[t].op = "cancel"
  /\ Served(id) => srv.ph = "out"
  /\ q' = Without(q, id) /\ rep' = Drop(rep, id)
  /\ srv' = IF Served(id) THEN [srv EXCEPT !.keep = FALSE] ELSE srv
  /\ Done(t, 0) /\ UNCHANGED <<used, halt, now>>
\* the provider call in progress is interrupted because its future is dropped
Interrupt(t, id) == /\ pend[t].op = "cancel" /\ pend[t].id = id /\ Served(id)
                    /\ srv' = [srv EXCEPT !.keep = FALSE] /\ Done(t, 0) /\ UNCHANGED <<q, rep, used, halt, now>>
\* shutting down
ShutInterrupt(t, id) == /\ pend[t].op = "shut" /\ pend[t].x = 0 /\ Served(id)
                        /\ pend' = [pend EXCEPT ![t].x = id] /\ UNCHANGED <<q, srv, rep, used, halt, now>>
Shut(t) == /\ pend[t].op = "shut" /\ ~halt
           /\ (srv.ph \in {"taken", "in"} /\ srv.keep) => pend[t].x = srv.id
           /\ halt' = TRUE /\ UNCHANGED <<q, srv, rep, used, pend, now>>
ShutDone(t) == /\ pend[t].op = "shut" /\ halt /\ srv.ph = "free" /\ Done(t, 0)
               /\ UNCHANGED <<q, srv, rep, used, halt, now>>
Ret(t, v) == /\ pend[t].op = "done" /\ pend[t].v = v /\ pend' = [pend EXCEPT ![t] = Idle]
             /\ UNCHANGED <<q, srv, rep, used, halt, now>>

Effect(t) == Ident(t) \/ IsReady(t) \/ Wait(t) \/ Fetch(t) \/ Cancel(t) \/ Shut(t) \/ ShutDone(t)
\* Nothing can happen without the provider or time: then only does time pass.
Quiet == /\ ~ENABLED Take /\ srv.ph \notin {"taken", "out"}
         /\ \A t \in Threads : \/ pend[t].op = "idle" \/ (pend[t].op = "wait" /\ ~CanWait(t))
                               \/ (pend[t].op = "shut" /\ halt /\ srv.ph # "free")
Time(n) == /\ n > now /\ Quiet /\ (\A t \in Threads : pend[t].op = "wait" => n <= pend[t].x) /\ now' = n /\ UNCHANGED <<q, srv, rep, used, halt, pend>>

TypeOK == /\ srv.ph \in {"free", "taken", "in", "out"} /\ DOMAIN rep \subseteq used
          /\ \A i \in 1..Len(q) : q[i].id \in used
\* a request is in at most one place
OnePlace == /\ \A i, j \in 1..Len(q) : q[i].id = q[j].id => i = j
            /\ \A i \in 1..Len(q) : ~Ready(q[i].id) /\ ~(srv.ph # "free" /\ srv.id = q[i].id)
            /\ srv.ph # "free" => ~Ready(srv.id)
=============================================================================

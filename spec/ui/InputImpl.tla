----------------------------- MODULE InputImpl ------------------------------
(***************************************************************************)
(* The design: one mutex, a condition variable for the server and one for  *)
(* all waiting clients. Client threads make one request each, wait for the *)
(* reply, and fetch it or drop the future. NotifyAll: whether a reply      *)
(* wakes up all clients; with one only, a client whose reply is there may  *)
(* sleep on (Answered is violated: this was a defect of the real code).    *)
(* The provider answers any request, at any time; when asked to stop it    *)
(* does answer.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Main, NotifyAll, MaxRequests
VARIABLES q, srv, rep, used, halt, pend, now,
          mtx,       \* who holds the mutex
          pc,        \* per thread, and of the server
          asleep,    \* clients that wait for the reply signal
          signalled, \* the server has been signalled
          mine,      \* per client: the request it has a future for, 0: none
          stop       \* requests whose provider call was asked to stop
vars == <<q, srv, rep, used, halt, pend, now, mtx, pc, asleep, signalled, mine, stop>>
Threads == Clients \cup {Main}
Server == 0 - 1
Nobody == 0 - 2
A == INSTANCE Input
Init == /\ A!IInit /\ mtx = Nobody /\ pc = [t \in Threads \cup {Server} |-> IF t = Server THEN "lock" ELSE "idle"]
        /\ asleep = {} /\ signalled = FALSE /\ mine = [t \in Clients |-> 0] /\ stop = {}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
NewId == Cardinality(used) + 1

\* ---- clients
Invoke(t) ==
  /\ pc[t] = "idle" /\ pc[Main] = "idle"
  /\ \/ mine[t] = 0 /\ Cardinality(used) + Cardinality({u \in Clients : pend[u].op = "request"}) < MaxRequests
        /\ A!Call(t, "request", 0, 1)
     \/ mine[t] # 0 /\ \E op \in {"ready", "wait", "get", "cancel"} :
        A!Call(t, op, mine[t], IF op = "wait" THEN now + 1000 ELSE 0)
  /\ Goto(t, "lock") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>
Lock(t) == /\ pc[t] = "lock" /\ mtx = Nobody /\ mtx' = t /\ Goto(t, "in")
           /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, asleep, signalled, mine, stop>>
Unlock == mtx' = Nobody
In(t) == pc[t] = "in"
DoRequest(t) == /\ In(t) /\ A!Request(t, NewId) /\ mine' = [mine EXCEPT ![t] = NewId] /\ Unlock /\ Goto(t, "signal")
                /\ UNCHANGED <<asleep, signalled, stop>>
Signal(t) == /\ pc[t] = "signal" /\ signalled' = TRUE /\ Goto(t, "ret")
             /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, mtx, asleep, mine, stop>>
DoReady(t) == /\ In(t) /\ A!IsReady(t) /\ Unlock /\ Goto(t, "ret") /\ UNCHANGED <<asleep, signalled, mine, stop>>
DoFetch(t) == /\ In(t) /\ A!Fetch(t) /\ Unlock /\ Goto(t, "ret")
              /\ mine' = [mine EXCEPT ![t] = IF A!Ready(mine[t]) THEN 0 ELSE @] /\ UNCHANGED <<asleep, signalled, stop>>
DoWait(t) == /\ In(t) /\ A!Wait(t) /\ Unlock /\ Goto(t, "ret") /\ UNCHANGED <<asleep, signalled, mine, stop>>
Sleep(t) == /\ In(t) /\ pend[t].op = "wait" /\ ~A!CanWait(t) /\ Unlock /\ Goto(t, "asleep") /\ asleep' = asleep \cup {t}
            /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, signalled, mine, stop>>
Wake(t) == /\ t \in asleep /\ asleep' = asleep \ {t} /\ Goto(t, "lock")     \* spurious
           /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, mtx, signalled, mine, stop>>
DoCancel(t) == /\ In(t) /\ pend[t].op = "cancel"
               /\ IF A!Served(mine[t]) THEN A!Interrupt(t, mine[t]) /\ stop' = stop \cup {mine[t]}
                  ELSE A!Cancel(t) /\ UNCHANGED stop
               /\ Unlock /\ Goto(t, "ret") /\ mine' = [mine EXCEPT ![t] = 0] /\ UNCHANGED <<asleep, signalled>>
Return(t) == /\ pc[t] = "ret" /\ A!Ret(t, pend[t].v) /\ Goto(t, "idle") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>

\* ---- shutting down, when no client is doing anything
CallShut == /\ pc[Main] = "idle" /\ \A t \in Clients : pc[t] = "idle"
            /\ A!Call(Main, "shut", 0, 0) /\ Goto(Main, "lock") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>
ShutStop == /\ In(Main) /\ srv.ph # "free" /\ srv.keep /\ pend[Main].x = 0
            /\ A!ShutInterrupt(Main, srv.id) /\ stop' = stop \cup {srv.id}
            /\ UNCHANGED <<mtx, pc, asleep, signalled, mine>>
DoShut == /\ In(Main) /\ (srv.ph # "free" /\ srv.keep) => pend[Main].x # 0
          /\ A!Shut(Main) /\ Unlock /\ Goto(Main, "signal") /\ UNCHANGED <<asleep, signalled, mine, stop>>
SignalShut == /\ pc[Main] = "signal" /\ signalled' = TRUE /\ Goto(Main, "join")
              /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, mtx, asleep, mine, stop>>
Join == /\ pc[Main] = "join" /\ pc[Server] = "ended" /\ A!ShutDone(Main) /\ Goto(Main, "ret")
        /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>
RetShut == /\ pc[Main] = "ret" /\ A!Ret(Main, 0) /\ Goto(Main, "gone") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>

\* ---- the server
SLock == /\ pc[Server] = "lock" /\ mtx = Nobody /\ mtx' = Server /\ Goto(Server, "look")
         /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, asleep, signalled, mine, stop>>
SSleep == /\ pc[Server] = "look" /\ ~halt /\ q = <<>> /\ Unlock /\ signalled' = FALSE /\ Goto(Server, "asleep")
          /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, asleep, mine, stop>>
SWake == /\ pc[Server] = "asleep" /\ signalled /\ Goto(Server, "lock")
         /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, mtx, asleep, signalled, mine, stop>>
SEnd == /\ pc[Server] = "look" /\ halt /\ Unlock /\ Goto(Server, "ended")
        /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, asleep, signalled, mine, stop>>
STake == /\ pc[Server] = "look" /\ ~halt /\ A!Take /\ Unlock /\ Goto(Server, "begin")
         /\ UNCHANGED <<asleep, signalled, mine, stop>>
SBegin == /\ pc[Server] = "begin" /\ A!Begin(srv.id, 1) /\ Goto(Server, "asking") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>
SAnswer == /\ pc[Server] = "asking" /\ A!Finish(srv.id, 5) /\ Goto(Server, "lock2") /\ UNCHANGED <<mtx, asleep, signalled, mine, stop>>
SLock2 == /\ pc[Server] = "lock2" /\ mtx = Nobody /\ mtx' = Server /\ Goto(Server, "publish")
          /\ UNCHANGED <<q, srv, rep, used, halt, pend, now, asleep, signalled, mine, stop>>
SPublish == /\ pc[Server] = "publish" /\ A!Publish
            /\ \E W \in SUBSET asleep :
                 /\ IF ~srv.keep THEN W = {} ELSE IF NotifyAll THEN W = asleep
                    ELSE IF asleep = {} THEN W = {} ELSE Cardinality(W) = 1
                 /\ asleep' = asleep \ W
                 /\ pc' = [t \in Threads \cup {Server} |-> IF t = Server THEN "lock" ELSE IF t \in W THEN "lock" ELSE pc[t]]
            /\ Unlock /\ UNCHANGED <<signalled, mine, stop>>

ClientStep(t) == \/ Invoke(t) \/ DoRequest(t) \/ Signal(t) \/ DoReady(t) \/ DoFetch(t) \/ DoWait(t) \/ Sleep(t) \/ Wake(t) \/ DoCancel(t) \/ Return(t)
Next == \/ \E t \in Clients : ClientStep(t) \/ Lock(t)
        \/ Lock(Main) \/ CallShut \/ ShutStop \/ DoShut \/ SignalShut \/ Join \/ RetShut
        \/ SLock \/ SSleep \/ SWake \/ SEnd \/ STake \/ SBegin \/ SAnswer \/ SLock2 \/ SPublish
Fair == /\ \A t \in Clients : /\ SF_vars(Lock(t)) /\ WF_vars(DoRequest(t)) /\ WF_vars(Signal(t)) /\ WF_vars(DoReady(t)) /\ WF_vars(DoFetch(t))
                              /\ WF_vars(DoWait(t)) /\ WF_vars(Sleep(t)) /\ WF_vars(DoCancel(t)) /\ WF_vars(Return(t))
        /\ SF_vars(Lock(Main)) /\ WF_vars(ShutStop) /\ WF_vars(DoShut) /\ WF_vars(SignalShut) /\ WF_vars(Join) /\ WF_vars(RetShut)
        /\ SF_vars(SLock) /\ WF_vars(SSleep) /\ WF_vars(SWake) /\ WF_vars(SEnd) /\ WF_vars(STake) /\ WF_vars(SBegin)
        /\ SF_vars(SLock2) /\ WF_vars(SPublish)
        \* a provider answers when it is asked to stop
        /\ WF_vars(srv.id \in stop /\ SAnswer)
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == A!TypeOK
OnePlace == A!OnePlace
\* the abstract service
ANext == \/ A!Take \/ A!Publish \/ (\E i \in 1..MaxRequests : A!Begin(i, 1) \/ A!Finish(i, 5))
         \/ \E t \in Threads :
              \/ \E op \in {"ready", "get", "cancel"}, i \in 1..MaxRequests : A!Call(t, op, i, 0)
              \/ \E i \in 1..MaxRequests : A!Call(t, "wait", i, now + 1000) \/ A!Request(t, i) \/ A!Interrupt(t, i) \/ A!ShutInterrupt(t, i)
              \/ A!Call(t, "request", 0, 1) \/ A!Call(t, "shut", 0, 0) \/ A!Effect(t) \/ A!Ret(t, pend[t].v)
ASpec == A!IInit /\ [][ANext]_<<q, srv, rep, used, halt, pend, now>>
Refines == ASpec
\* a wait for a reply that is there ends; nothing else ever keeps a client; shutting down ends
Answered == \A t \in Clients : (pend[t].op = "wait" /\ A!Ready(pend[t].id)) ~> pc[t] = "idle"
NeverBlocked == \A t \in Clients : (pc[t] # "idle" /\ pend[t].op # "wait") ~> pc[t] = "idle"
ShutEnds == (pc[Main] = "lock") ~> (pc[Main] = "gone")
\* a request that is waiting is taken up if the provider answers the ones before
NoReplyOfDropped == \A id \in DOMAIN rep : \E t \in Clients : mine[t] = id
=============================================================================

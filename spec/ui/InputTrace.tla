----------------------------- MODULE InputTrace -----------------------------
EXTENDS Input, TraceLib
tvars == <<q, srv, rep, used, halt, pend, now, tid, l>>
TInit == IInit /\ StartTrace
At(t) == t = now
Ev(k) == Is(k) /\ At(E.t)
Next1 ==
  \/ Ev("call") /\ Call(E.th, E.op, E.id, IF E.op = "wait" THEN now + E.x ELSE E.x) /\ Consume
  \/ Ev("ret") /\ Ret(E.th, E.v) /\ Consume
  \/ Ev("begin") /\ Begin(E.id, E.tag) /\ Consume
  \/ Ev("finish") /\ Finish(E.id, E.v) /\ Consume
  \/ Ev("intr") /\ (Interrupt(E.th, E.id) \/ ShutInterrupt(E.th, E.id)) /\ Consume
  \/ Ev("end") /\ (\A t \in Threads : pend[t].op = "idle") /\ srv.ph = "free" /\ halt /\ UNCHANGED ivars /\ Consume
\* What the operation that thread t is in is going to return.
Expect(t) == LET RECURSIVE f(_)
                 f(i) == IF i > Len(Events) THEN 0 ELSE IF Events[i].k = "ret" /\ Events[i].th = t THEN Events[i].v ELSE f(i + 1)
             IN f(l)
\* Operations that only look at a reply take effect as soon as they would give what they are going to return: nobody
\* else can tell when they happened.
Local(t) == /\ pend[t].op \in {"id", "ready", "wait", "get"}
            /\ LET r == Ready(pend[t].id) IN
               CASE pend[t].op = "id" -> pend[t].id = Expect(t)
                 [] pend[t].op = "get" -> Expect(t) = IF r THEN rep[pend[t].id] ELSE NotReady
                 [] pend[t].op = "ready" -> r = (Expect(t) # 0)
                 [] OTHER -> CanWait(t) /\ r = (Expect(t) # 0)
First == LET S == {t \in Threads : Local(t)} IN IF S = {} THEN -1 ELSE CHOOSE t \in S : \A u \in S : t <= u
\* the request that the provider is going to be asked next
NextBegin == LET RECURSIVE f(_)
                 f(i) == IF i > Len(Events) THEN 0 ELSE IF Events[i].k = "begin" THEN Events[i].id ELSE f(i + 1)
             IN f(l)
\* a request becomes known under the identifier that the client is told
Hidden == \/ (q # <<>> /\ Head(q).id = NextBegin /\ Take) \/ Publish
          \/ \E t \in Threads : Cancel(t) \/ Shut(t) \/ ShutDone(t) \/ (pend[t].op = "request" /\ Request(t, Expect(t)))
TNext == /\ More
         /\ LET f == First IN
            IF f # -1 THEN (Ident(f) \/ IsReady(f) \/ Wait(f) \/ Fetch(f)) /\ Keep
            ELSE \/ Next1
                 \/ Hidden /\ Keep
                 \/ E.k # "abnormal" /\ Time(E.t) /\ Keep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

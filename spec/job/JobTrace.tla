------------------------------- MODULE JobTrace -------------------------------
(* Is a recorded history of a job a behaviour of Job?                        *)
EXTENDS Job, TraceLib
tvars == <<tree, S, J, tid, l>>
Ctls == {-1, -2, -3}
TInit == /\ StartTrace
         /\ tree = Traces[tid].tree
         /\ S = InitState(Traces[tid].tree, Ctls, NoVals)
         /\ J = InitJob(Traces[tid].tree, Ctls, IF Traces[tid].novars THEN NoVals ELSE Traces[tid].vars)
Threaded == \E n \in Nodes : N(n).t \in {"Async", "Par"}
Same == UNCHANGED <<tree, S>>
Matches(e) == IF e.k = "nx" /\ Threaded THEN E.k = "nx" ELSE e = E
TNext ==
  \/ Is("cmd") /\ Free(E.t) /\ Call(E.t, E.c) /\ Same /\ Consume
  \/ Is("bp") /\ Free(E.t) /\ Mark(E.t, E.n, E.on) /\ Same /\ Consume
  \/ Is("ret") /\ Return(E.t) /\ Same /\ Consume
  \/ Is("destroy") /\ Free(E.t) /\ Destroy(E.t) /\ Same /\ Consume
  \* a leaf is about to write a variable
  \/ Is("w") /\ (\E t \in DOMAIN S.stk : /\ ~Idle(S, t) /\ Top(S, t).n = E.n /\ Top(S, t).pc = "leaf"
                                         /\ S' = Push(S, t, [n |-> E.n, pc |-> "write", k |-> E.x, r |-> E.v]))
     /\ UNCHANGED <<tree, J>> /\ Consume
  \* nothing moves: what the real objects say now
  \/ Is("sit") /\ Still(S, J) /\ E.s = [n \in Nodes |-> S.st[n]]
     /\ (\A i \in 1..Len(E.v) : IF E.v[i].ok THEN Has(S, E.v[i].v) /\ S.val[E.v[i].v].x = E.v[i].x ELSE ~Has(S, E.v[i].v))
     /\ UNCHANGED J /\ Same /\ Consume
  \/ Is("cut") /\ UNCHANGED J /\ Same /\ Consume
  \/ Is("end") /\ J.life = "gone" /\ UNCHANGED J /\ Same /\ Consume
  \/ /\ More
     /\ \E x \in Steps(S, J) : /\ S' = x[1] /\ J' = x[2]
                               /\ IF x[3] = Tau THEN Keep ELSE Matches(x[3]) /\ Consume
     /\ UNCHANGED tree
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

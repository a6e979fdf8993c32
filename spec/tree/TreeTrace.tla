------------------------------ MODULE TreeTrace -----------------------------
(* Is a recorded execution of an instruction tree a behaviour of Tree?     *)
EXTENDS Tree, TraceLib
VARIABLE mute    \* how far the destruction of everything has come; its resets are not reported
tvars == <<tree, S, mute, tid, l>>
Halters == {-1, -2, -3}
All == DOMAIN S.stk
TInit == /\ StartTrace /\ mute = "no"
         /\ tree = Traces[tid].tree
         /\ S = InitState(Traces[tid].tree, Halters, Traces[tid].vars)
Same == UNCHANGED <<tree, mute>>
TNext ==
  \/ Is("tick") /\ Idle(S, MainThread) /\ S' = Tick(S) /\ Same /\ Consume
  \/ Is("tock") /\ Idle(S, MainThread) /\ E.s = S.st[1] /\ S' = S /\ Same /\ Consume
  \/ Is("reset") /\ Idle(S, MainThread) /\ S' = Reset(S) /\ Same /\ Consume
  \/ Is("done") /\ Idle(S, MainThread) /\ S' = S /\ Same /\ Consume
  \/ Is("halt") /\ Idle(S, E.t) /\ S' = Halt(S, E.t) /\ Same /\ Consume
  \/ Is("halted") /\ Idle(S, E.t) /\ S' = S /\ Same /\ Consume
  \/ Is("set") /\ S' = [S EXCEPT !.val[E.v] = IF E.ok THEN E.w ELSE @] /\ E.ok /\ Same /\ Consume
  \/ Is("next") /\ Range(E.i) = NextInstrs(S) /\ E.l = NextLeaves(S) /\ S' = S /\ Same /\ Consume
  \/ Is("destroy") /\ Idle(S, MainThread) /\ S' = S /\ mute' = "vars" /\ UNCHANGED tree /\ Consume
  \* the variables go first, then the tree is reset
  \/ More /\ mute = "vars" /\ UNCHANGED tree /\ Keep
     /\ IF DOMAIN S.val = {} THEN mute' = "tree" /\ S' = Reset(S)
        ELSE mute' = mute /\ \E v \in DOMAIN S.val : S' = [S EXCEPT !.val = [x \in DOMAIN @ \ {v} |-> @[x]]]
  \/ Is("end") /\ mute = "tree" /\ (\A t \in All : Idle(S, t)) /\ (\A n \in Nodes : S.st[n] = "NS") /\ S' = S /\ Same /\ Consume
  \/ /\ More /\ E.k \in {"st", "b", "e", "var"}
     /\ \E t \in All : \E x \in Succ(S, t) : x[2] = E /\ ~(mute = "tree" /\ t = MainThread) /\ S' = x[1]
     /\ Same /\ Consume
  \/ /\ More
     /\ \E t \in All : \E x \in Succ(S, t) : (x[2] = Tau \/ (mute = "tree" /\ t = MainThread)) /\ S' = x[1]
     /\ Same /\ Keep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

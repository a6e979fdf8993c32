------------------------------ MODULE RunnerTrace ------------------------------
(* Is a recorded history of a runner a behaviour of Runner?                   *)
EXTENDS Runner, TraceLib
tvars == <<tree, S, R, tid, l>>
Ctls == {-1, -2, -3}
TInit == /\ StartTrace
         /\ tree = Traces[tid].tree
         /\ S = InitState(Traces[tid].tree, Ctls, Traces[tid].vars)
         /\ R = InitRunner(Ctls)
Calm(t) == R.ctl[t] = "idle" /\ Idle(S, t)
SameS == UNCHANGED <<tree, S>>
SameR == UNCHANGED <<tree, R>>
TNext ==
  \/ Is("attach") /\ R.pc = "idle" /\ R' = Attach(R) /\ SameS /\ Consume
  \/ Is("run") /\ R.pc = "idle" /\ R' = Run(R, TRUE) /\ SameS /\ Consume
  \/ Is("single") /\ R.pc = "idle" /\ R' = Run(R, FALSE) /\ SameS /\ Consume
  \/ Is("ran") /\ R.pc = "done" /\ R' = [R EXCEPT !.pc = "idle"] /\ SameS /\ Consume
  \* the callback after a tick may take its time
  \/ Is("cbend") /\ R.pc = "incb" /\ R.ctl[-1] = "idle" /\ (S.st[1] = "RU" => E.slept >= E.ms) /\ (E.alone /\ S.st[1] # "RU" => E.slept = 0)
     /\ R' = [R EXCEPT !.pc = "cbend"] /\ SameS /\ Consume
  \/ Is("ask") /\ Calm(E.t) /\ (E.t = -1 => Here(R)) /\ R' = Ask(R, E.t, E.c) /\ SameS /\ Consume
  \/ Is("asked") /\ R.ctl[E.t] = "ret" /\ R' = [R EXCEPT !.ctl[E.t] = "idle"] /\ SameS /\ Consume
  \/ Is("bp") /\ Here(R) /\ E.on /\ E.r = Mark(R, E.n) /\ R' = SetBp(R, E.n) /\ SameS /\ Consume
  \/ Is("bp") /\ Here(R) /\ ~E.on /\ E.r = (IF Known(R, E.n) THEN "yes" ELSE "no") /\ R' = Clear(R, E.n) /\ SameS /\ Consume
  \/ Is("rearm") /\ R.pc = "idle" /\ R' = Forget(R) /\ SameS /\ Consume
  \/ Is("reset") /\ R.pc = "idle" /\ Idle(S, MainThread) /\ S' = Reset(S) /\ SameR /\ Consume
  \/ Is("done") /\ Idle(S, MainThread) /\ S' = S /\ SameR /\ Consume
  \* a question can be overtaken by a halt
  \/ Is("ask?") /\ Here(R) /\ R' = [R EXCEPT !.was = IsFinished(S, R)] /\ SameS /\ Consume
  \/ Is("q") /\ Here(R) /\ E.fin \in {R.was, IsFinished(S, R)} /\ E.run = IsRunning(S, R) /\ E.cur = R.cur /\ E.bps = R.bps /\ UNCHANGED R /\ SameS /\ Consume
  \/ Is("end") /\ R.pc = "idle" /\ (\A t \in Ctls : Calm(t)) /\ UNCHANGED R /\ SameS /\ Consume
  \/ /\ More
     /\ \E x \in Steps(S, R) : S' = x[1] /\ R' = x[2] /\ (IF x[3] = Tau THEN Keep ELSE x[3] = E /\ Consume)
     /\ UNCHANGED tree
TSpec == TInit /\ [][TNext]_tvars
===============================================================================

-------------------------------- MODULE Runner --------------------------------
(***************************************************************************)
(* The synchronous runner: it ticks a tree (S, module Tree) until it has   *)
(* ended, a breakpoint is reached or somebody asked it to stop. R is its   *)
(* own state. Thread -1 is the thread that runs it (also in the callback   *)
(* after a tick), other negative threads pause and halt meanwhile.         *)
(***************************************************************************)
EXTENDS Tree
VARIABLE R
InitRunner(others) ==
  [has |-> FALSE, was |-> TRUE, pc |-> "idle", run |-> FALSE, brk |-> FALSE, bps |-> <<>>, cur |-> <<>>, ctl |-> [t \in others |-> "idle"]]
Silent(s, r) == <<s, r, Tau>>
Over(s) == Finished(s.st[1]) \/ s.flag[1]
Known(r, n) == \E i \in 1..Len(r.bps) : r.bps[i].n = n
Hit(s, r, i) == ~r.bps[i].rel /\ r.bps[i].n \in NextInstrs(s)
Hits(s, r) == SelectSeq([i \in 1..Len(r.bps) |-> IF Hit(s, r, i) THEN r.bps[i].n ELSE 0], LAMBDA n : n # 0)
Rearm(r) == [r EXCEPT !.bps = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rel = FALSE]]]

RunSteps(s, r) ==
  CASE r.pc = "start" -> {Silent(s, [r EXCEPT !.brk = FALSE, !.cur = <<>>, !.pc = IF r.has THEN "loop" ELSE "done"])}
    [] r.pc = "loop" -> {Silent(s, [r EXCEPT !.pc = IF Over(s) \/ r.brk THEN "done" ELSE "look"])}
    [] r.pc = "look" ->
         IF Hits(s, r) = <<>> THEN {Silent(s, [r EXCEPT !.pc = "tick"])}
         ELSE {Silent(s, [r EXCEPT !.cur = Hits(s, r), !.pc = "done",
                                   !.bps = [i \in DOMAIN @ |-> IF Hit(s, r, i) THEN [@[i] EXCEPT !.rel = TRUE] ELSE @[i]]])}
    [] r.pc = "tick" -> IF r.has THEN {Silent(Tick(s), [r EXCEPT !.pc = "ticking"])} ELSE {Silent(s, [r EXCEPT !.pc = "done"])}
    [] r.pc = "ticking" -> IF Idle(s, MainThread) THEN {<<s, [Rearm(r) EXCEPT !.pc = "incb"], [k |-> "cb", s |-> s.st[1]]>>} ELSE {}
    [] r.pc = "cbend" -> {Silent(s, [r EXCEPT !.pc = IF r.run THEN "loop" ELSE "done"])}
    [] OTHER -> {}
CtlSteps(s, r, t) ==
  CASE r.ctl[t] = "halt" -> {Silent(IF r.has THEN Halt(s, t) ELSE s, [r EXCEPT !.brk = TRUE, !.ctl[t] = "halting"])}
    [] r.ctl[t] = "halting" -> IF Idle(s, t) THEN {Silent(s, [r EXCEPT !.ctl[t] = "ret"])} ELSE {}
    [] r.ctl[t] = "pause" -> {Silent(s, [r EXCEPT !.brk = TRUE, !.ctl[t] = "ret"])}
    [] OTHER -> {}
TreeSteps(s, r) == UNION {{<<x[1], r, x[2]>> : x \in Succ(s, t)} : t \in DOMAIN s.stk}
Steps(s, r) == RunSteps(s, r) \cup UNION {CtlSteps(s, r, t) : t \in DOMAIN r.ctl} \cup TreeSteps(s, r)

\* ==== calls ====
Here(r) == r.pc \in {"idle", "incb"} /\ r.ctl[-1] = "idle"      \* the running thread may call something
Attach(r) == [r EXCEPT !.has = TRUE, !.bps = <<>>]
Run(r, all) == [r EXCEPT !.run = all, !.pc = IF all THEN "start" ELSE "tick"]
Ask(r, t, c) == [r EXCEPT !.ctl[t] = c]
\* what setting and removing a breakpoint answer
Mark(r, n) == IF ~r.has THEN "throw" ELSE IF Known(r, n) THEN "no" ELSE "yes"
SetBp(r, n) == IF Mark(r, n) = "yes" THEN [r EXCEPT !.bps = Append(@, [n |-> n, rel |-> FALSE])] ELSE r
Clear(r, n) == [r EXCEPT !.bps = SelectSeq(@, LAMBDA b : b.n # n)]
Forget(r) == [Rearm(r) EXCEPT !.cur = <<>>]
IsFinished(s, r) == ~r.has \/ Over(s)
IsRunning(s, r) == r.has /\ s.st[1] = "RU"
===============================================================================

--------------------------------- MODULE Job ---------------------------------
(***************************************************************************)
(* A job: the runner thread that executes a procedure (an instruction tree *)
(* and its variables), the queue of commands, breakpoints, and what the    *)
(* job reports to its observer.                                            *)
(*                                                                         *)
(* The tree is that of module Tree (S); J is everything else. A step is a  *)
(* triple <<new S, new J, event>>. Commands come from control threads      *)
(* (negative numbers), whose calls are not atomic: a halt holds the queue  *)
(* while it goes through the tree.                                         *)
(*                                                                         *)
(* States: I initial, R running, P paused, T stepping, S succeeded,        *)
(* F failed, H halted.                                                     *)
(***************************************************************************)
EXTENDS Tree
VARIABLE J
Fin(x) == x \in {"S", "F", "H"}
Commands == {"start", "step", "pause", "reset", "halt", "term"}
Prio(c) == CASE c = "start" -> 0 [] c = "step" -> 1 [] c = "pause" -> 2 [] c = "reset" -> 3 [] c = "halt" -> 4 [] c = "term" -> 5

Calm == [pc |-> "idle", c |-> "", n |-> 0, on |-> FALSE]
InitJob(tr, ctls, vals) ==
  [q |-> <<>>, lk |-> 0, bl |-> 0,
   st |-> "", pc |-> "say", say |-> "I", nxt |-> "setup",
   step |-> FALSE, pz |-> FALSE, alive |-> TRUE,
   life |-> "ctor",                 \* ctor alive dying deaf gone
   todo |-> DOMAIN vals, ini |-> vals,
   bp |-> [n \in 1..Len(tr) |-> "no"],                              \* no, set, rel (is being passed)
   view |-> [n \in 1..Len(tr) |-> [b |-> FALSE, s |-> "NS"]],       \* as last reported
   ctl |-> [t \in ctls |-> Calm]]
NoVals == [v \in {} |-> 0]

Say(j, x, next) == [j EXCEPT !.pc = "say", !.say = x, !.nxt = next]
Rearm(b) == [n \in DOMAIN b |-> IF b[n] = "rel" THEN "set" ELSE b[n]]
Hits(s, j) == {n \in NextInstrs(s) : j.bp[n] = "set"}

\* what a command does; run: taken from the queue between two ticks
Handle(j, c, run) ==
  LET on == IF run THEN "nx" ELSE "wait" IN
  CASE c = "term" -> [j EXCEPT !.alive = FALSE, !.pc = IF run THEN "nx" ELSE "exit"]
    [] c = "start" /\ j.st \in {"I", "P"} -> Say([j EXCEPT !.step = FALSE], "R", "loop0")
    [] c = "step" /\ j.st \in {"I", "P"} -> Say([j EXCEPT !.step = TRUE], "T", "tick")
    [] c = "halt" /\ j.st \in {"I", "P", "R"} -> Say(j, "H", on)
    [] c \in {"pause", "step"} /\ j.st = "R" -> Say([j EXCEPT !.pz = TRUE], "P", on)
    [] c = "reset" /\ Fin(j.st) -> [j EXCEPT !.pc = "unset"]
    [] OTHER -> [j EXCEPT !.pc = on]

Silent(s, j) == <<s, j, Tau>>
Outcome(s) == IF s.st[1] = "SU" THEN "S" ELSE "F"

\* ==== the runner thread ====
RunnerSteps(s, j) ==
  CASE j.pc = "say" -> {<<s, [j EXCEPT !.st = j.say, !.pc = j.nxt], [k |-> "job", s |-> j.say]>>}
    [] j.pc = "wait" ->
         IF j.lk = 0 /\ j.q # <<>> THEN {Silent(s, Handle([j EXCEPT !.q = Tail(@)], Head(j.q), FALSE))} ELSE {}
    [] j.pc = "loop0" -> {Silent(s, [j EXCEPT !.pz = FALSE, !.pc = "loop"])}
    [] j.pc = "loop" ->
         {Silent(s, [j EXCEPT !.pc = IF ~(Finished(s.st[1]) \/ s.flag[1] \/ j.pz) THEN "bps"
                                     ELSE IF j.alive THEN "wait" ELSE "exit"])}
    [] j.pc = "bps" ->
         (LET h == Hits(s, j) IN
          IF h = {} THEN {Silent(s, [j EXCEPT !.pc = "tick"])}
          ELSE {Silent(s, Say([j EXCEPT !.bp = [n \in DOMAIN @ |-> IF n \in h THEN "rel" ELSE @[n]]], "P", "wait"))})
    [] j.pc = "tick" -> {Silent(Tick(s), [j EXCEPT !.pc = "ticking"])}
    [] j.pc = "ticking" ->
         IF Idle(s, MainThread) THEN {Silent(s, [j EXCEPT !.bp = Rearm(@), !.pc = IF j.step THEN "nx" ELSE "cb"])} ELSE {}
    [] j.pc = "cb" ->
         IF Finished(s.st[1]) THEN {Silent(s, Say(j, Outcome(s), "nx"))}
         ELSE IF j.lk # 0 THEN {}
         ELSE IF j.q = <<>> THEN {Silent(s, [j EXCEPT !.pc = "nx"])}
         ELSE {Silent(s, Handle([j EXCEPT !.q = Tail(@)], Head(j.q), TRUE))}
    [] j.pc = "nx" -> {<<s, [j EXCEPT !.pc = IF j.step THEN "stepend" ELSE "loop"], [k |-> "nx", l |-> NextLeaves(s)]>>}
    [] j.pc = "stepend" -> {Silent(s, Say(j, IF Finished(s.st[1]) THEN Outcome(s) ELSE "P", "wait"))}
    [] j.pc = "unset" ->
         IF DOMAIN s.val = {} THEN {Silent(Reset(s), [j EXCEPT !.pc = "resetting"])}
         ELSE {Silent([s EXCEPT !.val = [x \in DOMAIN @ \ {v} |-> @[x]]], j) : v \in DOMAIN s.val}
    [] j.pc = "resetting" ->
         IF Idle(s, MainThread) THEN {Silent(s, [j EXCEPT !.pc = "setup", !.todo = DOMAIN j.ini])} ELSE {}
    [] j.pc = "setup" ->
         IF j.todo # {}
         THEN {<<[s EXCEPT !.val = [x \in DOMAIN @ \cup {v} |-> IF x = v THEN j.ini[v] ELSE @[x]]], [j EXCEPT !.todo = @ \ {v}],
                 [k |-> "var", v |-> v, x |-> j.ini[v].x]>> : v \in j.todo}
         ELSE IF j.life = "ctor" THEN {<<s, [j EXCEPT !.life = "alive", !.pc = "wait"], [k |-> "init", n |-> Len(tree)]>>}
         ELSE {Silent(s, Say([j EXCEPT !.bp = Rearm(@)], "I", "wait"))}
    [] OTHER -> {}

\* ==== control threads ====
Urgent(c) == c \in {"halt", "term"}
CtlSteps(s, j, t) ==
  LET c == j.ctl[t]
      To(k, pc) == [k EXCEPT !.ctl[t].pc = pc]
  IN
  CASE c.pc = "push" ->
         IF j.lk # 0 THEN {}
         ELSE IF ~Urgent(c.c) THEN {Silent(s, To([j EXCEPT !.q = Append(@, c.c)], "ret"))}
         ELSE IF j.q = <<>> THEN {Silent(s, To([j EXCEPT !.lk = t], "sweep0"))}
         ELSE IF Prio(c.c) > Prio(Head(j.q)) THEN {Silent(s, To([j EXCEPT !.lk = t], "sweep0"))}
         ELSE {Silent(s, To(j, "ret"))}
    [] c.pc = "sweep0" -> {Silent(Halt(s, t), To([j EXCEPT !.pz = TRUE], "sweep"))}
    [] c.pc = "sweep" ->
         IF Idle(s, t) THEN {Silent(s, To([j EXCEPT !.q = <<c.c>> \o @, !.lk = 0], "ret"))} ELSE {}
    [] c.pc = "bpset" ->
         IF j.bl # 0 THEN {}
         ELSE IF (j.bp[c.n] # "no") = c.on THEN {Silent(s, To(j, "ret"))}
         ELSE {Silent(s, To([j EXCEPT !.bp[c.n] = IF c.on THEN "set" ELSE "no", !.bl = t], "bprep"))}
    [] c.pc = "bprep" ->
         {<<s, To([j EXCEPT !.bl = 0, !.view[c.n].b = c.on], "ret"), [k |-> "ist", n |-> c.n, b |-> c.on, s |-> j.view[c.n].s]>>}
    [] OTHER -> {}

\* ==== the tree, as the observer sees it ====
TreeStepsOf(s, j, t) ==
         {LET e == x[2] IN
          CASE e.k = "st" /\ ~(j.life = "deaf" /\ t = MainThread) ->
                 <<x[1], [j EXCEPT !.view[e.n].s = e.s], [k |-> "ist", n |-> e.n, b |-> j.view[e.n].b, s |-> e.s]>>
            [] e.k = "st" -> <<x[1], j, Tau>>
            [] e.k = "var" /\ j.life = "deaf" -> <<x[1], j, Tau>>
            [] OTHER -> <<x[1], j, e>> : x \in Succ(s, t)}
TreeSteps(s, j) == UNION {TreeStepsOf(s, j, t) : t \in DOMAIN s.stk}

\* ==== the end: the runner thread has ended, then the variables go, then the tree ====
EndSteps(s, j) ==
  CASE j.life = "dying" /\ j.pc = "exit" /\ (\A t \in DOMAIN j.ctl : j.ctl[t].pc \in {"idle", "ret"}) -> {Silent(s, [j EXCEPT !.life = "deaf"])}
    [] j.life = "deaf" /\ j.pc = "exit" ->
         IF DOMAIN s.val = {} THEN {Silent(Reset(s), [j EXCEPT !.pc = "cleared"])}
         ELSE {Silent([s EXCEPT !.val = [x \in DOMAIN @ \ {v} |-> @[x]]], j) : v \in DOMAIN s.val}
    [] j.life = "deaf" /\ j.pc = "cleared" ->
         IF \A t \in DOMAIN s.stk : Idle(s, t) THEN {<<s, [j EXCEPT !.life = "gone"], [k |-> "gone"]>>} ELSE {}
    [] OTHER -> {}

Steps(s, j) == RunnerSteps(s, j) \cup UNION {CtlSteps(s, j, t) : t \in DOMAIN j.ctl} \cup TreeSteps(s, j) \cup EndSteps(s, j)

\* ==== calls ====
Free(t) == J.ctl[t].pc = "idle" /\ J.life = "alive"
Call(t, c) == J' = [J EXCEPT !.ctl[t] = [pc |-> "push", c |-> c, n |-> 0, on |-> FALSE]]
Mark(t, n, on) == J' = [J EXCEPT !.ctl[t] = [pc |-> "bpset", c |-> "", n |-> n, on |-> on]]
Return(t) == J.ctl[t].pc = "ret" /\ J' = [J EXCEPT !.ctl[t] = Calm]
Destroy(t) == J' = [J EXCEPT !.life = "dying", !.ctl[t] = [pc |-> "push", c |-> "term", n |-> 0, on |-> FALSE]]
\* nothing is going on
Still(s, j) == j.pc = "wait" /\ j.q = <<>> /\ (\A t \in DOMAIN s.stk : Idle(s, t)) /\ (\A t \in DOMAIN j.ctl : j.ctl[t].pc = "idle")
=============================================================================

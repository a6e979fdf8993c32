----------------------------- MODULE UserInstr ------------------------------
(***************************************************************************)
(* Instructions that ask the user: Input (a value for a variable), Choice  *)
(* (which child to execute), Confirm (go on or not). One thread executes   *)
(* the instruction tick by tick and resets it; others halt it at any       *)
(* moment while it is executed. Requests are answered by the environment   *)
(* at any moment.                                                          *)
(*                                                                         *)
(* I describes the instruction: kind, name and path of the variable that   *)
(* Input writes, texts: the attributes that are shown to the user, each    *)
(* [k |-> "none"], [k |-> "lit", s] or [k |-> "var", s]; kids: the names   *)
(* of the children and whether each of them can be executed at all.        *)
(***************************************************************************)
EXTENDS Memory, FiniteSets
CONSTANTS Halters
VARIABLES I, mem,
          st,      \* status of the instruction
          kid,     \* statuses of the children
          pc,      \* executing thread: idle, init, asked, exec, kid, ..., done, reset
          was,     \* the status that has been reported last
          req,     \* requests made so far (they are numbered)
          fut,     \* the request of this run: none, made, held, moved (a halter is about to drop it), taken, dropped
          ans,     \* per request: the replies that are there
          choice,  \* child that has been chosen (from 1), 0: none
          flag,    \* a halt has been requested
          halting, \* per halter: idle, called, done; the children it has halted
          sure     \* a halt had returned before this tick
uvars == <<I, mem, st, kid, pc, was, req, fut, ans, choice, flag, halting, sure>>

NoHalt == [ph |-> "idle", kids |-> {}, has |-> FALSE]
UInit(i, m) == /\ I = i /\ mem = m /\ st = "NS" /\ kid = [c \in 1..Len(i.kids) |-> "NS"] /\ pc = "idle" /\ was = "NS"
               /\ req = 0 /\ fut = "none" /\ ans = <<>> /\ choice = 0 /\ flag = FALSE
               /\ halting = [h \in Halters |-> NoHalt] /\ sure = FALSE
Kids == 1..Len(I.kids)
Live == {"NS", "NF", "RU"}

\* ---- what is asked
\* [ok, s]: the text of attribute a
TextOf(a, default) ==
  CASE a.k = "none" -> [ok |-> TRUE, s |-> default]
    [] a.k = "lit" -> [ok |-> TRUE, s |-> a.s]
    [] OTHER -> LET r == MGet(mem, a.s, <<>>, EmptyV) IN [ok |-> r.ok /\ r.v.t = "string", s |-> r.v.s]
Desc == TextOf(I.texts[1], "")
Old == MGet(mem, I.name, I.path, EmptyV)
CanAsk == CASE I.kind = "Input" -> Old.ok /\ Desc.ok
            [] I.kind = "Choice" -> Desc.ok
            [] OTHER -> Desc.ok /\ TextOf(I.texts[2], "Ok").ok /\ TextOf(I.texts[3], "Cancel").ok
Options == CASE I.kind = "Choice" -> [c \in Kids |-> I.kids[c] \o " (type:UiLeaf)"]
             [] I.kind = "Confirm" -> <<TextOf(I.texts[2], "Ok").s, TextOf(I.texts[3], "Cancel").s>>
             [] OTHER -> <<>>
Asked == [kind |-> IF I.kind = "Input" THEN "value" ELSE "choice", text |-> Desc.s, opts |-> Options,
          dlg |-> CASE I.kind = "Choice" -> "selection" [] I.kind = "Confirm" -> "confirmation" [] OTHER -> "",
          val |-> IF I.kind = "Input" THEN Default(Old.v) ELSE IntV("int32", 0)]

\* ---- a tick
UTick == /\ pc = "idle" /\ pc' = IF st = "NS" THEN "init" ELSE "exec"
         /\ sure' = (flag /\ \A h \in Halters : halting[h].ph = "idle")
         /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting>>
\* nothing can be asked
Refuse == /\ pc = "init" /\ ~CanAsk /\ st' = "FA" /\ pc' = "told"
          /\ UNCHANGED <<I, mem, kid, was, req, fut, ans, choice, flag, halting, sure>>
Ask(what, ok) == /\ pc = "init" /\ CanAsk /\ what = Asked /\ req' = req + 1
                 /\ IF ok THEN st' = "NF" /\ fut' = "made" ELSE st' = "FA" /\ UNCHANGED fut
                 /\ pc' = "told" /\ UNCHANGED <<I, mem, kid, was, ans, choice, flag, halting, sure>>
Hold == /\ fut = "made" /\ ~flag /\ fut' = "held" /\ UNCHANGED <<I, mem, st, kid, pc, was, req, ans, choice, flag, halting, sure>>
\* a status is reported whenever it has changed, also when it has become the same again as initially
Report(s) == /\ s = st /\ was # st /\ was' = st
             /\ \/ pc = "told" /\ fut # "made" /\ pc' = "exec"
                \/ pc = "done" /\ UNCHANGED pc
                \/ pc = "reset" /\ UNCHANGED pc
             /\ UNCHANGED <<I, mem, st, kid, req, fut, ans, choice, flag, halting, sure>>
Becomes(s) == st' = s /\ pc' = "done"
\* finished, or halted: nothing is executed
Skip == /\ pc = "exec" /\ (st \notin Live \/ flag) /\ pc' = "done"
        /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting, sure>>
Halted == /\ pc = "exec" /\ st \in Live /\ flag /\ ~sure /\ Becomes("FA")
          /\ UNCHANGED <<I, mem, kid, was, req, fut, ans, choice, flag, halting, sure>>
NotYet == /\ pc = "exec" /\ st \in Live /\ choice = 0 /\ fut = "held" /\ req \notin DOMAIN ans /\ Becomes("RU")
          /\ UNCHANGED <<I, mem, kid, was, req, fut, ans, choice, flag, halting, sure>>
\* r: the reply, [kind, ok, v]
ChoiceOf(r) == IF r.kind = "choice" /\ r.ok /\ r.v.t = "int32" THEN r.v.x \div 4 ELSE -1
Take(n, r) ==
  /\ pc = "exec" /\ st \in Live /\ ~sure /\ choice = 0 /\ fut = "held" /\ n = req /\ n \in DOMAIN ans /\ ans[n] = r
  /\ fut' = "taken"
  /\ CASE I.kind = "Confirm" -> Becomes(IF ChoiceOf(r) = 0 THEN "SU" ELSE "FA") /\ UNCHANGED <<mem, choice>>
       [] I.kind = "Choice" -> IF ChoiceOf(r) \in 0..Len(I.kids) - 1
                               THEN choice' = ChoiceOf(r) + 1 /\ Becomes("NF") /\ UNCHANGED mem
                               ELSE Becomes("FA") /\ UNCHANGED <<mem, choice>>
       [] OTHER -> IF r.kind = "value" /\ r.ok /\ MSet(mem, I.name, I.path, r.v).ok
                   THEN mem' = MWrite(mem, I.name, I.path, r.v) /\ Becomes("SU") /\ UNCHANGED choice
                   ELSE Becomes("FA") /\ UNCHANGED <<mem, choice>>
  /\ UNCHANGED <<I, kid, was, req, ans, flag, halting, sure>>
\* ---- the chosen child
Enter == /\ pc = "exec" /\ st \in Live /\ choice # 0 /\ ~sure /\ pc' = "kid"
         /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting, sure>>
KidStart(c) == /\ pc = "kid" /\ c = choice /\ kid[c] = "NS" /\ kid' = [kid EXCEPT ![c] = "NF"]
               /\ UNCHANGED <<I, mem, st, pc, was, req, fut, ans, choice, flag, halting, sure>>
KidExec(c, s) == /\ pc = "kid" /\ c = choice /\ kid[c] \in Live \ {"NS"} /\ kid' = [kid EXCEPT ![c] = s]
                 /\ pc' = IF s = kid[c] THEN "back" ELSE "kidtold"
                 /\ UNCHANGED <<I, mem, st, was, req, fut, ans, choice, flag, halting, sure>>
KidReport(c, s) == /\ pc = "kidtold" /\ c = choice /\ s = kid[c] /\ pc' = "back"
                   /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting, sure>>
KidSkip == /\ pc = "kid" /\ kid[choice] # "NS" /\ (kid[choice] \notin Live \/ flag) /\ pc' = "back"
           /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting, sure>>
Back == /\ pc = "back" /\ Becomes(kid[choice]) /\ UNCHANGED <<I, mem, kid, was, req, fut, ans, choice, flag, halting, sure>>
TickRet(s) == /\ pc = "done" /\ s = st /\ was = st /\ pc' = "idle"
              /\ (flag /\ \A h \in Halters : halting[h].ph = "idle") => fut \notin {"made", "held", "moved"}
              /\ UNCHANGED <<I, mem, st, kid, was, req, fut, ans, choice, flag, halting, sure>>

\* ---- the environment
Answer(n, r) == /\ n \in 1..req /\ n \notin DOMAIN ans /\ ans' = [k \in DOMAIN ans \cup {n} |-> IF k = n THEN r ELSE ans[k]]
                /\ UNCHANGED <<I, mem, st, kid, pc, was, req, fut, choice, flag, halting, sure>>
\* the future of the request is destroyed before its reply was fetched: only when it is no longer needed
Drop(n) == /\ n = req /\ fut \in {"made", "held", "moved"} /\ (flag \/ pc = "reset") /\ fut' = "dropped"
           /\ halting' = [h \in Halters |-> [halting[h] EXCEPT !.has = FALSE]]
           /\ UNCHANGED <<I, mem, st, kid, pc, was, req, ans, choice, flag, sure>>

\* ---- halting
HaltCall(h) == /\ halting[h].ph = "idle" /\ halting' = [halting EXCEPT ![h] = [ph |-> "called", kids |-> {}, has |-> FALSE]]
               /\ UNCHANGED <<I, mem, st, kid, pc, was, req, fut, ans, choice, flag, sure>>
HaltFlag(h) == /\ halting[h].ph = "called" /\ ~flag /\ flag' = TRUE
               /\ UNCHANGED <<I, mem, st, kid, pc, was, req, fut, ans, choice, halting, sure>>
HaltKid(h, c) == /\ halting[h].ph = "called" /\ flag /\ c \in Kids
                 /\ halting' = [halting EXCEPT ![h].kids = @ \cup {c}]
                 /\ UNCHANGED <<I, mem, st, kid, pc, was, req, fut, ans, choice, flag, sure>>
\* the halter that has taken the future away drops it before it returns; the others need not wait for it
HaltGrab(h) == /\ halting[h].ph = "called" /\ flag /\ fut = "held" /\ fut' = "moved"
               /\ halting' = [halting EXCEPT ![h].has = TRUE]
               /\ UNCHANGED <<I, mem, st, kid, pc, was, req, ans, choice, flag, sure>>
HaltRet(h) == /\ halting[h].ph = "called" /\ flag /\ halting[h].kids = Kids /\ fut # "held" /\ ~halting[h].has
              /\ halting' = [halting EXCEPT ![h] = NoHalt]
              /\ UNCHANGED <<I, mem, st, kid, pc, was, req, fut, ans, choice, flag, sure>>

\* ---- reset, while nobody halts
ResetCall == /\ pc = "idle" /\ \A h \in Halters : halting[h].ph = "idle"
             /\ pc' = "reset" /\ st' = "NS" /\ choice' = 0
             /\ UNCHANGED <<I, mem, kid, was, req, fut, ans, flag, halting, sure>>
KidReset(c) == /\ pc = "reset" /\ kid[c] # "NS" /\ kid' = [kid EXCEPT ![c] = "NS"]
               /\ UNCHANGED <<I, mem, st, pc, was, req, fut, ans, choice, flag, halting, sure>>
ResetRet == /\ pc = "reset" /\ was = "NS" /\ (\A c \in Kids : kid[c] = "NS") /\ fut \notin {"made", "held", "moved"}
            /\ pc' = "idle" /\ fut' = "none" /\ flag' = FALSE /\ sure' = FALSE
            /\ UNCHANGED <<I, mem, st, kid, was, req, ans, choice, halting>>
\* what comes next, as far as it is known
NextKids == IF I.kind = "Choice" /\ choice # 0 THEN (IF kid[choice] \in {"NS", "NF"} THEN <<choice>> ELSE <<>>) ELSE <<>>

\* ---- properties
UTypeOK == /\ st \in Live \cup {"SU", "FA"} /\ choice \in 0..Len(I.kids) /\ fut \in {"none", "made", "held", "moved", "taken", "dropped"}
\* a child is executed only after it has been chosen by a valid reply
OnlyChosen == \A c \in Kids : kid[c] # "NS" => (choice = c \/ pc = "reset")
\* nothing succeeds without an answer
SuccessNeedsAnswer == st = "SU" => fut = "taken" \/ (I.kind = "Choice" /\ choice # 0 /\ kid[choice] = "SU")
=============================================================================

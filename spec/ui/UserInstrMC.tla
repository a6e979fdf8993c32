----------------------------- MODULE UserInstrMC -----------------------------
(* Everything that can happen to small user instructions: any answers at any  *)
(* moment (or none), children with any outcome, halts at any moment, resets.  *)
EXTENDS UserInstr
CONSTANTS Kinds, MaxTicks, MaxRuns, MaxHalts, MaxKid
VARIABLES ticks, runs, halts, kticks, g
mcvars == <<uvars, ticks, runs, halts, kticks, g>>
NoText == [k |-> "none", s |-> ""]
I32(n) == IntV("int32", n)
Instrs ==
  {i \in { [kind |-> "Input", name |-> "v", path |-> <<>>, texts |-> <<NoText, NoText, NoText>>, kids |-> <<>>],
           [kind |-> "Confirm", name |-> "v", path |-> <<>>, texts |-> <<[k |-> "var", s |-> "w"], NoText, NoText>>, kids |-> <<>>],
           [kind |-> "Choice", name |-> "v", path |-> <<>>, texts |-> <<[k |-> "lit", s |-> "which"], NoText, NoText>>, kids |-> <<"a", "b">>] } : i.kind \in Kinds}
Mem0 == [v |-> [dyn |-> FALSE, val |-> I32(5)], w |-> [dyn |-> FALSE, val |-> Str("text")]]
Rp(kind, ok, v) == [kind |-> kind, ok |-> ok, v |-> v]
Replies == IF I.kind = "Input" THEN {Rp("value", TRUE, I32(7)), Rp("value", FALSE, I32(7)), Rp("value", TRUE, Str("x"))}
           ELSE {Rp("choice", TRUE, I32(0)), Rp("choice", TRUE, I32(1)), Rp("choice", TRUE, I32(2)), Rp("value", TRUE, I32(0))}
Init == /\ \E i \in Instrs : UInit(i, Mem0)
        /\ ticks = 0 /\ runs = 0 /\ halts = 0 /\ kticks = 0 /\ g = [wrote |-> 0, answered |-> 0, asked |-> 0, late |-> FALSE]
Same == UNCHANGED <<ticks, runs, halts, kticks>>
\* nothing is executed in a tick that begins after a halt has returned
Ghost == g' = [wrote |-> g.wrote + (IF mem' # mem THEN 1 ELSE 0),
               answered |-> IF pc' = "idle" /\ pc = "reset" THEN 0 ELSE g.answered + (IF fut' = "taken" /\ fut # "taken" THEN 1 ELSE 0),
               asked |-> IF pc' = "idle" /\ pc = "reset" THEN 0 ELSE g.asked + (req' - req),
               late |-> g.late \/ (sure /\ (mem' # mem \/ kid' # kid) /\ pc # "reset")]
Next0 ==
  \/ ticks < MaxTicks /\ UTick /\ ticks' = ticks + 1 /\ UNCHANGED <<runs, halts, kticks>>
  \/ (Refuse \/ (\E ok \in BOOLEAN : Ask(Asked, ok)) \/ Hold \/ Report(st) \/ Skip \/ Halted \/ NotYet \/ Enter \/ KidSkip \/ Back \/ TickRet(st)) /\ Same
  \/ (\E n \in DOMAIN ans : Take(n, ans[n])) /\ Same
  \/ (\E c \in Kids : KidStart(c) \/ KidReport(c, kid[c]) \/ KidReset(c)) /\ Same
  \/ (\E c \in Kids, s \in {"RU", "NF", "SU", "FA"} : (s \in {"RU", "NF"} => kticks < MaxKid) /\ KidExec(c, s)) /\ kticks' = kticks + 1 /\ UNCHANGED <<ticks, runs, halts>>
  \/ (\E n \in 1..req, r \in Replies : (n = req) /\ Answer(n, r)) /\ Same
  \/ Drop(req) /\ Same
  \/ \E h \in Halters : \/ halts < MaxHalts /\ pc # "reset" /\ HaltCall(h) /\ halts' = halts + 1 /\ UNCHANGED <<ticks, runs, kticks>>
                        \/ (HaltFlag(h) \/ HaltGrab(h) \/ (\E c \in Kids : c \notin halting[h].kids /\ HaltKid(h, c)) \/ HaltRet(h)) /\ Same
  \/ runs < MaxRuns /\ ResetCall /\ runs' = runs + 1 /\ UNCHANGED <<ticks, halts, kticks>>
  \/ ResetRet /\ Same
Next == Next0 /\ Ghost
Spec == Init /\ [][Next]_mcvars

\* ---- properties
QuietAfterHalt == ~g.late
\* one question per run, one answer per question
OnePerRun == g.asked <= 1 /\ g.answered <= g.asked
WritesNeedAnswers == g.wrote <= req
\* no question stays open once the instruction is halted or reset and nobody is busy with it
NothingOpen == (pc = "idle" /\ flag /\ sure /\ \A h \in Halters : halting[h].ph = "idle") => fut \notin {"made", "held", "moved"}
Clean == (pc = "idle" /\ st = "NS") => (choice = 0 /\ fut = "none" /\ \A c \in Kids : kid[c] = "NS")
FailureNoEffect == [][mem' # mem => st' = "SU"]_mcvars
\* every tick ends: the executing thread is never stuck
Stuck == pc \in {"idle"} \/ ENABLED Next0
\* liveness: with answers, ticks and no halt it comes to an end
LiveSpec == Spec /\ WF_mcvars(Next)
===============================================================================

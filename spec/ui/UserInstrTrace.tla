--------------------------- MODULE UserInstrTrace ---------------------------
EXTENDS UserInstr, TraceLib
tvars == <<uvars, tid, l>>
TInit == StartTrace /\ UInit(Traces[tid].instr, Traces[tid].mem)
Next1 ==
  \/ Is("tick") /\ UTick /\ Consume
  \/ Is("tret") /\ TickRet(E.s) /\ Consume
  \/ Is("req") /\ Ask(E.what, E.ok) /\ Consume
  \/ Is("ans") /\ Answer(E.n, E.r) /\ Consume
  \/ Is("take") /\ Take(E.n, E.r) /\ Consume
  \/ Is("drop") /\ Drop(E.n) /\ Consume
  \/ Is("st") /\ E.i = 0 /\ Report(E.s) /\ Consume
  \/ Is("st") /\ E.i # 0 /\ (IF E.s = "NF" /\ pc = "kid" THEN KidStart(E.i) ELSE IF E.s = "NS" THEN KidReset(E.i) ELSE KidReport(E.i, E.s)) /\ Consume
  \/ Is("cexec") /\ KidExec(E.i, E.s) /\ Consume
  \/ Is("hcall") /\ HaltCall(E.th) /\ Consume
  \/ Is("chalt") /\ (IF E.th = 0 THEN pc = "reset" /\ UNCHANGED uvars ELSE HaltKid(E.th, E.i)) /\ Consume
  \/ Is("hret") /\ HaltRet(E.th) /\ Consume
  \/ Is("rcall") /\ ResetCall /\ Consume
  \/ Is("rret") /\ ResetRet /\ Consume
  \/ Is("next") /\ E.l = NextKids /\ UNCHANGED uvars /\ Consume
  \/ Is("mem") /\ E.v = (IF I.name \in DOMAIN mem THEN mem[I.name].val ELSE EmptyV) /\ UNCHANGED uvars /\ Consume
  \/ Is("end") /\ pc = "idle" /\ UNCHANGED uvars /\ Consume
Hidden == Refuse \/ Hold \/ Skip \/ Halted \/ NotYet \/ Enter \/ KidSkip \/ Back \/ \E h \in Halters : HaltFlag(h) \/ HaltGrab(h)
TNext == Next1 \/ (More /\ Hidden /\ Keep)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

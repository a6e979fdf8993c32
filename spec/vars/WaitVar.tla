------------------------------- MODULE WaitVar -------------------------------
(***************************************************************************)
(* How Workspace::WaitForVariable waits: a callback that sets a flag under *)
(* a mutex and notifies a condition variable; the variable, which has a    *)
(* mutex of its own that is held while a write notifies, is looked at      *)
(* without the lock. TLC shows that a wait says what it saw, ends in time, *)
(* never sleeps on past an update, and cannot deadlock. With Flag = FALSE  *)
(* (wait for the notification itself) updates get lost, with Inside = TRUE *)
(* (look at the variable under the lock) it deadlocks: the two ways in     *)
(* which it has been wrong.                                                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Writers, MaxWrites, Flag, Inside
VARIABLES av,      \* availability of the variable; the wait is for TRUE
          vm, mx,  \* owner of the mutex of the variable, of the one of the wait
          updated, late, reg,
          pc, upc, writes, asleep, res,
          held     \* what av has been since the wait began
vars == <<av, vm, mx, updated, late, reg, pc, upc, writes, asleep, res, held>>
None == "none"
Init == /\ av \in BOOLEAN /\ vm = None /\ mx = None /\ updated = FALSE /\ late = FALSE /\ reg = FALSE
        /\ pc = "idle" /\ upc = [u \in Writers |-> "idle"] /\ writes = 0 /\ asleep = FALSE /\ res = None /\ held = {}
W == "waiter"
(* the wait *)
Begin == pc = "idle" /\ pc' = "look" /\ reg' = TRUE /\ held' = {av}
         /\ UNCHANGED <<av, vm, mx, updated, late, upc, writes, asleep, res>>
TakeMx == /\ pc = (IF Inside THEN "look" ELSE "lock") /\ mx = None /\ mx' = W
          /\ pc' = IF Inside THEN "look2" ELSE "test"
          /\ UNCHANGED <<av, vm, updated, late, reg, upc, writes, asleep, res, held>>
\* IsAvailable takes the mutex of the variable
Look == /\ pc \in {IF Inside THEN "look2" ELSE "look", "last"} /\ vm = None
        /\ CASE av -> res' = "yes" /\ pc' = "out" /\ mx' = IF mx = W THEN None ELSE mx
             [] pc = "last" -> res' = "no" /\ pc' = "out" /\ mx' = IF mx = W THEN None ELSE mx
             [] OTHER -> pc' = (IF Inside THEN "test" ELSE "lock") /\ UNCHANGED <<res, mx>>
        /\ UNCHANGED <<av, vm, updated, late, reg, upc, writes, asleep, held>>
\* wait_until(lk, finish, [] { return updated; })
Test == /\ pc = "test"
        /\ \/ Flag /\ updated /\ updated' = FALSE /\ mx' = None /\ pc' = "look" /\ UNCHANGED asleep
           \/ ~(Flag /\ updated) /\ late /\ pc' = "last" /\ mx' = (IF Inside THEN W ELSE None) /\ UNCHANGED <<asleep, updated>>
           \/ ~(Flag /\ updated) /\ ~late /\ mx' = None /\ asleep' = TRUE /\ pc' = "asleep" /\ UNCHANGED updated
        /\ UNCHANGED <<av, vm, late, reg, upc, writes, res, held>>
Woken == /\ pc = "asleep" /\ ~asleep /\ mx = None /\ mx' = W
         /\ pc' = (IF Flag THEN "test" ELSE "again")
         /\ UNCHANGED <<av, vm, updated, late, reg, upc, writes, asleep, res, held>>
Again == /\ pc = "again" /\ pc' = "look" /\ mx' = None      \* without the flag: whatever woke it
         /\ UNCHANGED <<av, vm, updated, late, reg, upc, writes, asleep, res, held>>
TimedOut == /\ pc = "asleep" /\ late /\ mx = None /\ asleep' = FALSE
            /\ pc' = (IF Flag /\ updated THEN "look" ELSE "last") /\ updated' = FALSE
            /\ mx' = IF Inside THEN W ELSE mx
            /\ UNCHANGED <<av, vm, late, reg, upc, writes, res, held>>
Spurious == asleep /\ ~late /\ asleep' = FALSE /\ UNCHANGED <<av, vm, mx, updated, late, reg, pc, upc, writes, res, held>>
Out == pc = "out" /\ reg /\ reg' = FALSE /\ pc' = "done"
       /\ UNCHANGED <<av, vm, mx, updated, late, upc, writes, asleep, res, held>>
Later == ~late /\ late' = TRUE /\ UNCHANGED <<av, vm, mx, updated, reg, pc, upc, writes, asleep, res, held>>
(* writers: change the variable under its mutex, and notify *)
Write(u) == /\ upc[u] = "idle" /\ writes < MaxWrites /\ vm = None /\ vm' = u /\ writes' = writes + 1
            /\ av' \in BOOLEAN /\ held' = held \union {av'}
            /\ upc' = [upc EXCEPT ![u] = IF reg THEN "note" ELSE "release"]
            /\ UNCHANGED <<mx, updated, late, reg, pc, asleep, res>>
Note(u) == /\ upc[u] = "note" /\ (~reg \/ mx = None)
           /\ updated' = (IF reg THEN TRUE ELSE updated) /\ asleep' = IF reg THEN FALSE ELSE asleep
           /\ upc' = [upc EXCEPT ![u] = "release"]
           /\ UNCHANGED <<av, vm, mx, late, reg, pc, writes, res, held>>
Release(u) == /\ upc[u] = "release" /\ vm' = None /\ upc' = [upc EXCEPT ![u] = "idle"]
              /\ UNCHANGED <<av, mx, updated, late, reg, pc, writes, asleep, res, held>>
Waiter == Begin \/ TakeMx \/ Look \/ Test \/ Woken \/ Again \/ TimedOut \/ Out
Writer(u) == Write(u) \/ Note(u) \/ Release(u)
Finished == pc = "done" /\ \A u \in Writers : upc[u] = "idle"
Next == Waiter \/ Spurious \/ Later \/ (\E u \in Writers : Writer(u)) \/ (Finished /\ UNCHANGED vars)
Fair == SF_vars(Waiter) /\ WF_vars(Later) /\ \A u \in Writers : WF_vars(Note(u) \/ Release(u))
Spec == Init /\ [][Next]_vars /\ Fair
Says == res = "yes" => TRUE \in held
SaysNo == res = "no" => late
Ends == (pc = "look") ~> (pc = "done")
\* asleep although the variable is there and everybody has notified
NotForgotten == ~(asleep /\ av /\ ~late /\ \A u \in Writers : upc[u] = "idle")
===============================================================================

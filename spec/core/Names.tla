-------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names and classification of statuses, job states, severities and        *)
(* commands. The abstract state is trivial: every question has one answer. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

StatusName == <<"Not started", "Not finished", "Running", "Success", "Failure">>
StateName == <<"Initial", "Paused", "Stepping", "Running", "Success", "Failure", "Halted">>
SeverityName == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE">>
NumLevels == 9

At(table, i, default) == IF i \in 0..(Len(table) - 1) THEN table[i + 1] ELSE default

Finished(s) == s \in {3, 4}
Needs(s) == ~Finished(s)
Ready(s) == s \in {0, 1}
Executing(s) == s \in {1, 2}
FinishedState(s) == s \in {4, 5, 6}
FromName(n) == IF \E i \in 1..Len(SeverityName) : SeverityName[i] = n
               THEN (CHOOSE i \in 1..Len(SeverityName) : SeverityName[i] = n) - 1
               ELSE NumLevels

OneToOne(table) == \A i, j \in 1..Len(table) : table[i] = table[j] => i = j
ASSUME OneToOne(StatusName) /\ OneToOne(StateName) /\ OneToOne(SeverityName)
ASSUME \A i \in 0..8 : FromName(At(SeverityName, i, "UNKNOWN")) = i
ASSUME FromName("UNKNOWN") = NumLevels
\* the classes are total and consistent
ASSUME \A s \in 0..4 : /\ Finished(s) # Needs(s)
                       /\ Ready(s) => Needs(s)
                       /\ Executing(s) => Needs(s)
                       /\ Needs(s) => (Ready(s) \/ Executing(s))
ASSUME \A s \in 0..6 : FinishedState(s) => s # 0
=============================================================================

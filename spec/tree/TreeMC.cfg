SPECIFICATION Spec
CONSTANTS MainThread = 0
 Halter = H
 MaxOps = 3
 MaxHalts = 1
 Only = {}
 Small = TRUE
INVARIANTS TypeOK OneThread SeqOutcome FbOutcome SeqOrder FbOrder Reactive InvOutcome ForceOutcome RepCount ForOutcome ChoiceOutcome ParOutcome NoStray
PROPERTIES NoLateBegin AfterReset
CHECK_DEADLOCK FALSE

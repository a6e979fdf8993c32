SPECIFICATION Spec
CONSTANTS
  Halters = {1}
  Kinds = {"Input", "Confirm", "Choice"}
  MaxTicks = 3
  MaxRuns = 1
  MaxHalts = 1
  MaxKid = 2
INVARIANTS UTypeOK OnlyChosen SuccessNeedsAnswer QuietAfterHalt OnePerRun WritesNeedAnswers NothingOpen Clean Stuck
PROPERTY FailureNoEffect
CHECK_DEADLOCK FALSE

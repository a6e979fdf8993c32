SPECIFICATION Spec
CONSTANTS
  Halters = {1, 2}
  Kinds = {"Input", "Confirm", "Choice"}
  MaxTicks = 4
  MaxRuns = 1
  MaxHalts = 2
  MaxKid = 2
INVARIANTS UTypeOK OnlyChosen SuccessNeedsAnswer QuietAfterHalt OnePerRun WritesNeedAnswers NothingOpen Clean Stuck
PROPERTY FailureNoEffect
CHECK_DEADLOCK FALSE

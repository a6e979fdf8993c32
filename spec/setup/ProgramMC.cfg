SPECIFICATION Spec
CONSTANTS MaxNodes = 3
          MaxTyped = 2
          Words = {"1", "2", "x"}
INVARIANTS Verdict Refused LevelsOnlyHide DaemonAlone OnlyValidates Alternates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxNodes = 4
          MaxTyped = 2
          Words = {"1", "2", "x"}
INVARIANTS Verdict Refused LevelsOnlyHide DaemonAlone OnlyValidates Alternates
CHECK_DEADLOCK FALSE

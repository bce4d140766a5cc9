SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  PlanLength = 30
  Handles = {1, 2, 3}
INVARIANTS Emit TypeOK CanonicalRuns Extensional IndexInverse

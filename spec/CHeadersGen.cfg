SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Lines = 70
INVARIANTS Emit TypeOK

SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  PlanLength = 90
  Clients = {1, 2, 3, 4}
  Slots = {1, 2}
INVARIANTS Emit
PROPERTIES Keeps

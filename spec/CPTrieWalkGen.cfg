SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 Units = 4
 Datas <- TinyDatas
 Fasts <- AllFasts
 I3s <- AllI3s
INVARIANTS Plan

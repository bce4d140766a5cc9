SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 Units = 4
 I2s <- AllI2s
 BmpUnits <- AllI2s
INVARIANTS Plan

SPECIFICATION Spec
CONSTANTS Keys <- KeysDef
 MaxT = 2
 MaxRecords = 4
 Periods <- PeriodsDef
INVARIANT Emit
CHECK_DEADLOCK FALSE

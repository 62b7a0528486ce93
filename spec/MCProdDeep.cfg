SPECIFICATION Spec
CONSTANTS
 Values <- Wide
 MaxLen = 4
 D = 3
INVARIANTS Product Sets Linear Swap Drop Settle Single Emit
CHECK_DEADLOCK FALSE

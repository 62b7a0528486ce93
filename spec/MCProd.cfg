SPECIFICATION Spec
CONSTANTS
 Values <- Small
 MaxLen = 4
 D = 2
INVARIANTS Product Sets Linear Swap Drop Settle Single Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Values <- Small
 MaxLen = 4
 Eps <- Half
INVARIANTS Reader Within Attained Length Signs Order Scaled Shifted Reversed Constant Emit
CHECK_DEADLOCK FALSE

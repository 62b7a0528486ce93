SPECIFICATION Spec
CONSTANTS
 Values <- Wide
 MaxLen = 5
 Eps <- Half
INVARIANTS Reader Within Attained Length Signs Order Scaled Shifted Reversed Constant Emit
CHECK_DEADLOCK FALSE

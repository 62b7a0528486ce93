SPECIFICATION Spec
CONSTANTS
 NB = 1
 NH = 3
 NQ = 3
 NK = 4
INVARIANTS Seen Masked Rule Between Emit
PROPERTY Alone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 NB = 2
 NH = 2
 NQ = 2
 NK = 3
INVARIANTS Seen Masked Rule Between Emit
PROPERTY Alone
CHECK_DEADLOCK FALSE

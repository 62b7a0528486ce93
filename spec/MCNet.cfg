SPECIFICATION Spec
CONSTANTS
 MaxHid = 5
 NormNames = {"none", "halve", "neg", "inc", "relu"}
 NonLinNames = {"none", "neg", "inc", "relu", "halve"}
INVARIANTS Shape InOrder Slope Halvings Offset Emit
CHECK_DEADLOCK FALSE

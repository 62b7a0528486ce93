SPECIFICATION Spec
CONSTANTS
 Selections = {"all", "reverse", "one", "last", "twice", "some", "many"}
 Layouts = {"plain", "strided", "offset"}
 Modes = {"grad", "nograd", "train", "eval"}
 Events = {"none", "backward", "other", "update"}
 Depth = 2
INVARIANTS Function Emit
PROPERTY Pure
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxSegs = 12
 U = 24
 Periods = {0, 8, 14, 24, 48, 60}
 Reach = 60
INVARIANTS Folds Inside Periodic Lookup Local Edge Neighbour Glob Partition Emit
PROPERTY Slope
CHECK_DEADLOCK FALSE

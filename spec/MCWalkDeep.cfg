SPECIFICATION Spec
CONSTANTS
 MaxSegs = 30
 U = 60
 Periods = {0, 2, 18, 40, 60, 76, 120, 200}
 Reach = 180
INVARIANTS Folds Inside Periodic Lookup Local Edge Neighbour Glob Partition Emit
PROPERTY Slope
CHECK_DEADLOCK FALSE

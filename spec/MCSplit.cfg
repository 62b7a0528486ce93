SPECIFICATION Spec
CONSTANTS
 Kinds = {"cont"}
 Orders = {2, 3}
 MaxN = 4
 Segments = {1, 2}
 Ratios = {1, 2, 3}
 Values <- SomeValues
 Factors <- NoFactors
 Depth = 2
 MaxSegs = 6
INVARIANTS Implements Continuous Interpolates Counts Emit
PROPERTY SmoothStep
CHECK_DEADLOCK FALSE

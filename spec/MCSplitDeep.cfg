SPECIFICATION Spec
CONSTANTS
 Kinds = {"cont"}
 Orders = {2, 3, 4}
 MaxN = 4
 Segments = {1, 2, 3}
 Ratios = {1, 2, 3}
 Values <- TwoValues
 Factors <- NoFactors
 Depth = 2
 MaxSegs = 9
INVARIANTS Implements Continuous Interpolates Counts Emit
PROPERTY SmoothStep
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Kinds = {"disc"}
 Orders = {2, 3}
 MaxN = 4
 Segments = {2, 3}
 Ratios = {}
 Values <- TwoValues
 Factors <- MoreFactors
 Depth = 2
 MaxSegs = 6
INVARIANTS Implements Continuous Interpolates Counts Emit
PROPERTY SmoothStep
CHECK_DEADLOCK FALSE

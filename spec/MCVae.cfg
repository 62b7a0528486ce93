SPECIFICATION Spec
CONSTANTS
 MaxMu = 3
 MaxL = 3
 MaxE = 3
INVARIANTS NonNegative Vanishes Mirror Spread Monotone
CHECK_DEADLOCK FALSE

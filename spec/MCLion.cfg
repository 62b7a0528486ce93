SPECIFICATION Spec
CONSTANTS
  Grads <- GradSet
  Depth = 3
INVARIANTS ZeroKeeps MovesByLr MomentumBounded Untouched Opposes Emit
CHECK_DEADLOCK FALSE

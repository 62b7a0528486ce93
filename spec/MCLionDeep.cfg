SPECIFICATION Spec
CONSTANTS
  Grads <- GradSet
  Depth = 5
INVARIANTS ZeroKeeps MovesByLr MomentumBounded Untouched Opposes
CHECK_DEADLOCK FALSE

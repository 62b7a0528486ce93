SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2, 3, 5}
 Kernels = {1, 2, 3}
 Strides = {1, 2, 3}
 Pads = {0, 1, 2}
 Dilations = {1, 2}
 Modes = {"zeros", "reflect", "replicate", "circular"}
INVARIANTS Count Reads Inputs Adjoint Size Once Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2, 3, 4, 5, 6, 8}
 Kernels = {1, 2, 3, 4, 5}
 Strides = {1, 2, 3, 4}
 Pads = {0, 1, 2, 3}
 Dilations = {1, 2, 3}
 Modes = {"zeros", "reflect", "replicate", "circular"}
INVARIANTS Count Reads Inputs Adjoint Size Once Emit
CHECK_DEADLOCK FALSE

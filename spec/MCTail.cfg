SPECIFICATION Spec
CONSTANTS
 Widths = {3, 5, 8}
 Kernels = {1, 2, 3}
 Strides = {1, 2}
 Pads = {0, 1}
 Focus = {1, 2}
 MaxLayers = 3
INVARIANTS Sizes LevelWidths Order Ends Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Widths = {1, 4, 7, 9}
 Kernels = {1, 2, 3}
 Strides = {1, 2, 3}
 Pads = {0, 1, 2}
 Focus = {1, 3}
 MaxLayers = 3
INVARIANTS Sizes LevelWidths Order Ends Emit
CHECK_DEADLOCK FALSE

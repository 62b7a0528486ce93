SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS TypeOK Emit
PROPERTIES OneChanges Independent SavedStays
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS TypeOK
PROPERTIES OneChanges Independent SavedStays
CHECK_DEADLOCK FALSE

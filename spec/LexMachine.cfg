SPECIFICATION Spec
INVARIANTS Refines Tiling ErrorAt StateOk
PROPERTY Terminates
CHECK_DEADLOCK TRUE

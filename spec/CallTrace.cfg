SPECIFICATION Spec
INVARIANT RowOK
CHECK_DEADLOCK FALSE

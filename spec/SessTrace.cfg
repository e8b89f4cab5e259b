SPECIFICATION Spec
INVARIANTS FirstOK InText
CHECK_DEADLOCK FALSE

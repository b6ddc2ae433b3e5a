SPECIFICATION Spec
INVARIANT Conserved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT OneEngine
CHECK_DEADLOCK FALSE

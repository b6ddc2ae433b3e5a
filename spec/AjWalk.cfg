SPECIFICATION WalkSpec
INVARIANT Safe
VIEW WalkView
CHECK_DEADLOCK FALSE

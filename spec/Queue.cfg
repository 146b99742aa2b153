SPECIFICATION Spec
INVARIANT NothingLost
CHECK_DEADLOCK FALSE

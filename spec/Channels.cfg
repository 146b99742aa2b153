SPECIFICATION Spec
INVARIANT DeliversInOrder
INVARIANT EndsComplete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT DeliversInOrder
INVARIANT EndsComplete
PROPERTY Terminates
CHECK_DEADLOCK FALSE

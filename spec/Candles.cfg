SPECIFICATION Spec
INVARIANTS Kept Effect
PROPERTIES StepsProp
CHECK_DEADLOCK FALSE

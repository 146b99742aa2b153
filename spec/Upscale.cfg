SPECIFICATION Spec
INVARIANTS Same Conserved TwoSteps
CHECK_DEADLOCK FALSE

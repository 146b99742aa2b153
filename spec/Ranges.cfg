SPECIFICATION Spec
INVARIANTS Partitioned Covered
PROPERTIES Ends
CHECK_DEADLOCK FALSE

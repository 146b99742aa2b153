SPECIFICATION Spec
INVARIANT SearchOrder
INVARIANT SameContent
INVARIANT Extremes
INVARIANT FindsWhatItHolds
CHECK_DEADLOCK FALSE

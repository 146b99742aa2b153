SPECIFICATION Spec
VIEW View
INVARIANT SearchOrder
INVARIANT SameContent
INVARIANT Extremes
INVARIANT FindsWhatItHolds
CHECK_DEADLOCK FALSE

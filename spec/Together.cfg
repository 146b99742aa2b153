SPECIFICATION Spec
INVARIANT CandlesUntouched
INVARIANT NoConflict
INVARIANT AnswersAreAlone
CHECK_DEADLOCK FALSE

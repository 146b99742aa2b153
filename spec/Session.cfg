SPECIFICATION Spec
INVARIANT CandlesUntouched
INVARIANT NothingDuplicated
INVARIANT AnswersAreFresh
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SameLanguage SameMachine SignedValue Rounds
CHECK_DEADLOCK FALSE

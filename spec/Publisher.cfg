SPECIFICATION Spec
INVARIANT OneRecordPerCandle
INVARIANT InCandleOrder
PROPERTY OnlyAppends
CHECK_DEADLOCK FALSE

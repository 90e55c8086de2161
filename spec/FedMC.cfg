SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS OneAttempt Stable Progress Drained Confluent AttemptsOk
PROPERTIES Final

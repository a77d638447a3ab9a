SPECIFICATION Spec
INVARIANTS Apart Steps Out
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Stands Ends Out
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Alike Clear Out
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Refines Sane Unwinds
VIEW Point
CHECK_DEADLOCK FALSE

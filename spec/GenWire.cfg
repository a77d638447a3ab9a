SPECIFICATION Spec
INVARIANTS Total Again Framed Self Out
VIEW Point
CHECK_DEADLOCK FALSE

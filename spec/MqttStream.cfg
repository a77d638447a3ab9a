SPECIFICATION Spec
INVARIANTS AsSpecified Complete Progress Limits Prompt Frugal Tidy Out
VIEW Point
CHECK_DEADLOCK FALSE

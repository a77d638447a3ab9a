SPECIFICATION Spec
INVARIANTS AsSpecified Complete Progress Limits Prompt Frugal Tidy
PROPERTY Ends
CHECK_DEADLOCK FALSE

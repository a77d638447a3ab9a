SPECIFICATION Spec
INVARIANTS Duality Whole PropsRead Observed Encodable
CHECK_DEADLOCK FALSE

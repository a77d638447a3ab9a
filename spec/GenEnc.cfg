SPECIFICATION Spec
INVARIANTS RoundTrips VersionOk NormOk Out
CHECK_DEADLOCK FALSE
VIEW Point

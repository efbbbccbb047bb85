SPECIFICATION Spec
INVARIANT PropertyHolds OneTokenAhead
PROPERTY OnLine Deterministic
CHECK_DEADLOCK FALSE

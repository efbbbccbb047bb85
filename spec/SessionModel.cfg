SPECIFICATION Spec
VIEW Distinguish
INVARIANT Recorded Logged Within
PROPERTY Forward
CHECK_DEADLOCK FALSE

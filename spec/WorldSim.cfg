SPECIFICATION Spec
CONSTANT DEPTH = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE

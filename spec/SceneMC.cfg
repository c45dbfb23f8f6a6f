SPECIFICATION Spec
INVARIANT Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE

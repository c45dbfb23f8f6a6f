SPECIFICATION Spec
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE

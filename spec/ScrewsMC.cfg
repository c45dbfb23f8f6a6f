SPECIFICATION Spec
INVARIANTS Laws Emitted
CHECK_DEADLOCK FALSE
VIEW Seen

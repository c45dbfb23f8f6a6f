SPECIFICATION Spec
INVARIANT Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Laws
VIEW View
CHECK_DEADLOCK FALSE

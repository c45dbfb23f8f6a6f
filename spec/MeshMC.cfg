SPECIFICATION Spec
INVARIANTS Inv RefusalsFrame Brackets
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Sorted AllFound Foreign OneEach Emit
VIEW View
CHECK_DEADLOCK FALSE

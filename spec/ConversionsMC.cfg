SPECIFICATION Spec
INVARIANTS Rigid Absent Emitted
PROPERTY Kept

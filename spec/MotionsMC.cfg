SPECIFICATION Spec
INVARIANTS Group Emitted

SPECIFICATION Spec
INVARIANTS Once Placed Emitted

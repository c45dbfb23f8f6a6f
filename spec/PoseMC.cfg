SPECIFICATION Spec
INVARIANT Group
INVARIANT Emitted

SPECIFICATION Spec
INVARIANTS Computes Memoryless Bounded Emitted

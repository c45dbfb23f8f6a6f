SPECIFICATION Spec
INVARIANTS Complete Forwarded Emit

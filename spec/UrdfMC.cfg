SPECIFICATION Spec
INVARIANTS TypeOK WalkOK PruneOK Mechanism MassConserved MassConservedMoving FixedOnly Emit
CHECK_DEADLOCK FALSE

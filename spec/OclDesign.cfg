SPECIFICATION Spec
INVARIANTS NoViolation LevelsBounded ContentConserved EquipmentExclusive WorkersEquipped WellNested Reserved Free
CHECK_DEADLOCK FALSE
CONSTRAINT Within

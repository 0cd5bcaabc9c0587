SPECIFICATION Spec
CONSTANT Lanes = 64
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Limit = 1000
CHECK_DEADLOCK FALSE

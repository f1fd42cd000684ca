SPECIFICATION Spec
CONSTANT MaxDepth = 1000
CHECK_DEADLOCK FALSE

SPECIFICATION E2ESpec
CONSTANT MaxDepth = 1000
CHECK_DEADLOCK FALSE

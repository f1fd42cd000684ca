SPECIFICATION Spec
INVARIANTS Declared Once Others Plan
CHECK_DEADLOCK FALSE

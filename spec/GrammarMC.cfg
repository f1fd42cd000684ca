SPECIFICATION Spec
INVARIANTS Completes Firsts Wider Plan
VIEW View
CHECK_DEADLOCK FALSE

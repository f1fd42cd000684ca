SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SlotsGood OnDisk Functional Plan

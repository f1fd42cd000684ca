SPECIFICATION Spec
CONSTANTS Threads = {"p1", "p2"}
          Types = {"t1", "t2", "t3", "t4", "t5"}
          Bad = {"t3"}
          Ops = 2
          DropAll = FALSE
INVARIANTS UseComplete NoBadUse NoGoodRefusal Exclusive
PROPERTIES Frozen
CHECK_DEADLOCK FALSE

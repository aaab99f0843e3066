SPECIFICATION Spec
CONSTANTS N = 8
          Depth = 3
INVARIANTS PartsAreAll PartsDisjoint PartsFew
CHECK_DEADLOCK FALSE

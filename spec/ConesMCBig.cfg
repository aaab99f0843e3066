SPECIFICATION Spec
CONSTANTS N = 12
          Depth = 4
INVARIANTS PartsAreAll PartsDisjoint PartsFew
CHECK_DEADLOCK FALSE

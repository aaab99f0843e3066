SPECIFICATION Spec
CONSTANTS N = 6
          MaxIt = 0
INVARIANTS Partition Bounded Complete Incomplete Confluent Sound Shrinks
PROPERTIES Ends
CHECK_DEADLOCK FALSE

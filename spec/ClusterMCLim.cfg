SPECIFICATION Spec
CONSTANTS N = 4
          MaxIt = 2
INVARIANTS Partition Bounded Complete Incomplete Confluent Sound Shrinks
PROPERTIES Ends
CHECK_DEADLOCK FALSE

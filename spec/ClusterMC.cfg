SPECIFICATION Spec
CONSTANTS N = 5
          MaxIt = 0
INVARIANTS Partition Bounded Complete Incomplete Confluent Sound Shrinks
PROPERTIES Ends
CHECK_DEADLOCK FALSE

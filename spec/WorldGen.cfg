SPECIFICATION Spec
CONSTANTS Depth = 3
  MaxObj = 3
INVARIANTS Printed Identities Together
PROPERTY Independent
CHECK_DEADLOCK FALSE

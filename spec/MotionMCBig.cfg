SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS InTime Between Back AtEnd Accepts
PROPERTIES InOrder StayPut Arrives
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS InTime Between Back AtEnd Accepts
PROPERTIES InOrder StayPut Arrives
CHECK_DEADLOCK FALSE

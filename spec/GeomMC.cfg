SPECIFICATION Spec
CONSTANTS
  W = 2
  N = 5
INVARIANTS Location Pick Orientation Kernel KernelOnly Convex Strict Rays Tangents FreeView Distance DistanceFine Meeting
CHECK_DEADLOCK FALSE

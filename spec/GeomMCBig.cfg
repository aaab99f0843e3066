SPECIFICATION Spec
CONSTANTS
  W = 3
  N = 4
INVARIANTS Location Pick Orientation Kernel KernelOnly Convex Strict Rays Tangents FreeView Distance DistanceFine Meeting
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "frame"
  NThreads = 2
  Values = {1, 2}
  Modes = {"a", "b"}
  Depth = 2
  MaxCalls = 4

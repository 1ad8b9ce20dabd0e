SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "busy"
  NThreads = 1
  Values = {1, 2}
  Modes = {"a", "b"}
  Depth = 1
  MaxCalls = 2

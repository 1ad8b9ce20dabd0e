SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "global"
  NThreads = 2
  Values = {1, 2}
  Modes = {"a", "b"}
  Depth = 1
  MaxCalls = 3

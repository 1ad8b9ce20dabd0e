INIT Init
NEXT Next
CONSTANTS
  P = 3
  EB = 8
  Wide = FALSE
  Extra = 0
  IK = 2
  LeastK = 0
  Variant = "ok"
  ExpStep = 150
INVARIANTS Ends Steps Answer Integers_
CHECK_DEADLOCK FALSE

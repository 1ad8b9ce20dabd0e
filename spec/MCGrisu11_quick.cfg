INIT Init
NEXT Next
CONSTANTS
  P = 3
  EB = 11
  Wide = TRUE
  Extra = 0
  IK = 3
  LeastK = 1
  Variant = "ok"
  ExpStep = 150
INVARIANTS Ends Steps Answer Integers_
CHECK_DEADLOCK FALSE

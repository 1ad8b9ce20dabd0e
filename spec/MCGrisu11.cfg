INIT Init
NEXT Next
CONSTANTS
  P = 4
  EB = 11
  Wide = TRUE
  Extra = 0
  IK = 3
  LeastK = 1
  Variant = "ok"
  ExpStep = 200
INVARIANTS Ends Steps Answer Integers_
CHECK_DEADLOCK FALSE

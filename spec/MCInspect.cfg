INIT Init
NEXT Next
CONSTANTS P = 6
          EB = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE

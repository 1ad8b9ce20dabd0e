INIT Init
NEXT Next
CONSTANTS H = 3
          WD = 12
INVARIANT Inv
CHECK_DEADLOCK FALSE

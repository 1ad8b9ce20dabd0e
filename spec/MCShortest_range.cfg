INIT Init
NEXT Next
CONSTANTS P = 2
          EB = 5
          MaxDigits = 2
          Need = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

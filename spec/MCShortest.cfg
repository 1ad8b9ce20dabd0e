INIT Init
NEXT Next
CONSTANTS P = 3
          EB = 4
          MaxDigits = 2
          Need = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

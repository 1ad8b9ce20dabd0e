INIT Init
NEXT Next
CONSTANTS P = 4
          EB = 4
          MaxDigits = 3
          Need = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

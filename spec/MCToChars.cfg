INIT Init
NEXT Next
CONSTANTS
          MaxF = 9
          MaxD = 17
INVARIANTS Written InRange Bounded
CHECK_DEADLOCK FALSE

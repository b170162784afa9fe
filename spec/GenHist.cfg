CONSTANTS
  NSlots = 2
  NRegs = 1
  Depth = 4
  Pieces = {1, 2, 3}
  Kinds = {1}
  Dense = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
  Limbs = {0, 1, 32768, 65535}
INVARIANTS Unary Binary
CHECK_DEADLOCK FALSE

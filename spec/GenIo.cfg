CONSTANTS
  Routes = {"in", "w", "wa", "fl", "sw", "swa", "sfl", "scp", "scc", "sv", "sbuf", "sdyn", "bdyn", "sfmt"}
  Pieces = {0, 1, 2, 3, 4}
  Depth = 2
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE

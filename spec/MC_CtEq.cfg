SPECIFICATION Spec
CONSTANTS
  N = 2
  W = 2
  Early = FALSE
INVARIANTS Oblivious Exact
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

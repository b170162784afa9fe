CONSTANTS
  MaxMsg = 40
  MaxPiece = 34
  Over = FALSE
INIT Init
NEXT Next
INVARIANTS
  WordsExact
  TailExact
  LengthByteFree
  LoadsInside
CHECK_DEADLOCK FALSE

CONSTANTS
  BlockOf <- PBlock
  HmacBlockOf <- PBlock
  LenLenOf <- PLenLen
  IvOf <- PIv
  CmpOf <- PCmp
  LenFieldOf <- PLenField
  DigOf <- PDig
  TailOf <- PTail
  LZero <- Zero
  LAdd <- PLAdd
  LMod <- PLMod
  BZero <- P0
  B80 <- P80
  XorI <- PX
  XorO <- PX
  MaxBlocks = 2
INIT Init
NEXT Next
INVARIANTS
  PaddedWhole
  CodedIsStandard
  ConstIsStandard
CHECK_DEADLOCK FALSE

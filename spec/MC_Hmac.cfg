CONSTANTS
  BlockOf <- TBlock
  HmacBlockOf <- THmacBlock
  LenLenOf <- TLenLen
  IvOf <- TIv
  CmpOf <- TCmp
  LenFieldOf <- TLenField
  DigOf <- TDig
  TailOf <- TTail
  LZero <- Zero
  LAdd <- TLAdd
  LMod <- TLMod
  BZero <- T0
  B80 <- T80
  XorI <- TXorI
  XorO <- TXorO
  ToyBlock = 4
  MaxKey = 11
  MaxMsg = 11
INIT Init
NEXT Next
INVARIANTS
  IsRfc2104
  CountFromKeyBlock
  OuterUntouched
  ResumesExactly
CHECK_DEADLOCK FALSE

CONSTANTS
  BlockOf <- TBlock
  HmacBlockOf <- THmacBlock
  LenLenOf <- TLenLen
  IvOf <- TIv
  CmpOf <- TCmp
  LenFieldOf <- TLenField
  DigOf <- TDig
  TailOf <- TTail
  LZero <- Zero
  LAdd <- TLAdd
  LMod <- TLMod
  BZero <- T0
  B80 <- T80
  XorI <- TXorI
  XorO <- TXorO
  ToyBlock = 4
  NSlots = 2
  NRegs = 1
  MaxMsg = 6
  MaxPiece = 5
  MaxSegs = 2
  Sorts = {"plain", "word", "hmac5"}
INIT Init
NEXT Next
INVARIANTS
  Tracked
  CountExact
  DigestIsStandard
  MidstateIsStandard
  SameContentSameEngine
  DistinctContentDistinctDigest
  LoopIsOneStep
  BufferBounded
CHECK_DEADLOCK FALSE

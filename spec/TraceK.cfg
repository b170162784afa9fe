CONSTANTS
  BlockOf <- RBlock
  HmacBlockOf <- RHmacBlock
  LenLenOf <- RLenLen
  IvOf <- RIv
  CmpOf <- RCmp
  LenFieldOf <- RLenField
  DigOf <- RDig
  TailOf <- RTail
  LZero <- Zero64
  LAdd <- RLAdd
  LMod <- RLMod
  BZero <- R0
  B80 <- R80
  XorI <- RXorI
  XorO <- RXorO
INIT Init
NEXT Next
INVARIANT Conforms

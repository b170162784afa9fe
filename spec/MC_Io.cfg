CONSTANTS
  BlockOf <- TBlock
  HmacBlockOf <- THmacBlock
  LenLenOf <- TLenLen
  IvOf <- TIv
  CmpOf <- TCmp
  LenFieldOf <- TLenField
  DigOf <- TDig
  TailOf <- TTail
  LZero <- Zero
  LAdd <- TLAdd
  LMod <- TLMod
  BZero <- T0
  B80 <- T80
  XorI <- TXorI
  XorO <- TXorO
  ToyBlock = 4
  MaxMsg = 6
  MaxBuf = 5
  Cap = 7
  VecAll = TRUE
  Sorts = {"plain", "word", "hmac", "tag"}
SPECIFICATION Spec
INVARIANTS TakesEverything NeverFails EngineIsContent
PROPERTIES LoopsEnd
CHECK_DEADLOCK FALSE

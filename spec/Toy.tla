------------------------------- MODULE Toy -------------------------------
(* A small symbolic algorithm family for the exhaustive models.  A byte is a sequence of
   numbers (so that symbolic bytes can be built from others), a chaining value is the sequence
   of blocks compressed so far: two computations agree iff they compressed the same blocks. *)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANT ToyBlock       \* block size in bytes
TBlock(a) == IF a = "w" THEN 2 ELSE ToyBlock       \* "w": SipHash-like, small words
THmacBlock(a) == ToyBlock
TLenLen(a) == IF a = "w" THEN 0 ELSE 1
TIv(a, k) == << k >>
TCmp(a, h, b) == Append(h, b)
LOCAL Flat(h) == FoldLeft(LAMBDA s, b : s \o FoldLeft(LAMBDA t, x : t \o x, <<4>>, b), <<3>>, h)
\* digests are ToyBlock/2 symbolic bytes
TDig(a, h) == [i \in 1..(ToyBlock \div 2) |-> <<5, i>> \o Flat(h)]
TTail(a, h, buf, n) == TDig(a, Append(h, Append(buf, <<8, n>>)))
TLenField(a, n) == << <<9, n>> >>
TLAdd(n, k) == n + k
TLMod(n, m) == n % m
T0 == <<0>>
T80 == <<2>>
TXorI(b) == <<6>> \o b
TXorO(b) == <<7>> \o b
Zero == 0
=============================================================================

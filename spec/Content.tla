----------------------------- MODULE Content -----------------------------
(* The library at the level of contents: an engine is the message it has absorbed.

   A message is a sequence of segments <<stream, offset, length>> naming bytes of a stream
   (offsets and lengths are 64-bit words); adjacent segments are joined, so equal messages have
   equal representations.  Digests and midstates are uninterpreted functions of the engine's
   sort and message.  MC_Chf shows that the engine machine of Chf.tla implements this one. *)
EXTENDS Words

Join(segs, s) ==
    IF s[3] = Zero64 THEN segs
    ELSE IF segs # <<>> /\ segs[Len(segs)][1] = s[1] /\ Add64(segs[Len(segs)][2], segs[Len(segs)][3]) = s[2]
         THEN [segs EXCEPT ![Len(segs)] = <<@[1], @[2], Add64(@[3], s[3])>>]
         ELSE Append(segs, s)
JoinAll(segs, ss) == FoldLeft(Join, segs, ss)
Total(segs) == FoldLeft(LAMBDA n, s : Add64(n, s[3]), Zero64, segs)

\* a rounded down to a multiple of m (a power of two not above 2^16)
Floor64(a, m) == Sub64(a, Nat64(Mod64(a, m)))

\* the first n bytes of a message
RECURSIVE Prefix(_, _)
Prefix(segs, n) ==
    IF segs = <<>> \/ n = Zero64 THEN <<>>
    ELSE IF Less64(n, segs[1][3]) THEN << <<segs[1][1], segs[1][2], n>> >>
    ELSE <<segs[1]>> \o Prefix(Tail(segs), Sub64(n, segs[1][3]))

\* An engine: its sort (opaque), the bytes counted before the message (HMAC key block, tag
\* block), its block size and its message.
NewC(sort, pre, blk) == [sort |-> sort, pre |-> pre, blk |-> blk, segs |-> <<>>]
CountC(c) == Add64(Nat64(c.pre), Total(c.segs))
AlignedC(c) == Floor64(CountC(c), c.blk)
\* the part of the message a midstate covers
WholeBlocks(c) == Prefix(c.segs, Sub64(AlignedC(c), Nat64(c.pre)))
=============================================================================

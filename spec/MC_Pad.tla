------------------------------ MODULE MC_Pad ------------------------------
(* Padding with the real block sizes and length-field sizes (64/8 and 128/16) and a free
   compression function: for every message length up to MaxBlocks blocks and every split into
   two pieces at a block-relevant position, the code's stepwise padding, the const evaluator's
   chunk-by-chunk padding and the standard's definition hash the same padded message. *)
EXTENDS Engine, FiniteSets
CONSTANT MaxBlocks

PBlock(a) == IF a = "b64" THEN 64 ELSE 128
PLenLen(a) == IF a = "b64" THEN 8 ELSE 16
PIv(a, k) == <<>>
PCmp(a, h, b) == Append(h, b)
PLenField(a, n) == [i \in 1..PLenLen(a) |-> <<9, n, i>>]
PDig(a, h) == h
PTail(a, h, b, n) == h
P0 == <<0>>
P80 == <<2>>
PX(b) == <<6>> \o b
PLAdd(n, k) == n + k
PLMod(n, m) == n % m
Zero == 0

VARIABLES a, n, cut
vars == <<a, n, cut>>
Msg(k) == [i \in 1..k |-> <<1, i>>]

Cuts(x, k) == {c \in {0, 1, k - 1, k, (k \div PBlock(x)) * PBlock(x), k \div 2} : c >= 0 /\ c <= k}
Init == /\ a \in {"b64", "b128"}
        /\ n = 0 /\ cut = 0
Next == \/ /\ n < MaxBlocks * PBlock(a) + 1
           /\ n' = n + 1 /\ cut' = 0 /\ UNCHANGED a
        \/ /\ cut = 0 /\ cut' \in Cuts(a, n) /\ UNCHANGED <<a, n>>

\* the code: feed in two pieces, finalise step by step
Coded == FinishLoop(AbsorbLoop(AbsorbLoop(NewEngine(a, <<>>), SubSeq(Msg(n), 1, cut)), SubSeq(Msg(n), cut + 1, n)))
\* the const evaluator: number of chunks first, then every chunk byte by byte
ConstChunks == (n + 1 + PLenLen(a) + PBlock(a) - 1) \div PBlock(a)
ConstByte(i) == LET last == ConstChunks * PBlock(a)
                IN IF i <= n THEN Msg(n)[i] ELSE IF i = n + 1 THEN B80
                   ELSE IF i > last - PLenLen(a) THEN PLenField(a, n)[i - (last - PLenLen(a))] ELSE BZero
Const == FoldLeft(LAMBDA h, k : PCmp(a, h, [j \in 1..PBlock(a) |-> ConstByte((k - 1) * PBlock(a) + j)]), <<>>, Iota(ConstChunks))

PaddedWhole == LET p == PadOf(a, n % PBlock(a), n) IN
    /\ (n + Len(p)) % PBlock(a) = 0
    /\ Len(p) >= 1 + PLenLen(a)
    /\ Len(p) <= PBlock(a) + PLenLen(a)
CodedIsStandard == Coded = StdDigest(a, <<>>, Msg(n))
ConstIsStandard == Const = StdDigest(a, <<>>, Msg(n))
=============================================================================

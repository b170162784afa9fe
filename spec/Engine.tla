----------------------------- MODULE Engine -----------------------------
(* The hash engine: an incremental (Merkle-Damgard style) machine, HMAC on top of it, and
   the standards' monolithic definitions it must agree with.

   The module is parametric in the algorithm family so that one text serves
     - the exhaustive models (MC_Chf, MC_Hmac, ...) with small blocks and a free (symbolic)
       compression function, and
     - the trace specifications (TraceK, ...) with the real algorithms of Algo.tla. *)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANTS
    BlockOf(_),        \* compression block size in bytes
    HmacBlockOf(_),    \* block size the HMAC construction uses
    LenLenOf(_),       \* size of the encoded length field in bytes (0: SipHash's own ending)
    IvOf(_, _),        \* initial chaining value of an algorithm under a key (key: SipHash only)
    CmpOf(_, _, _),    \* compression: (algorithm, chaining value, block) -> chaining value
    LenFieldOf(_, _),  \* encoded length field: (algorithm, byte count)
    DigOf(_, _),       \* digest bytes: (algorithm, final chaining value)
    TailOf(_, _, _, _),\* SipHash's own ending: (algorithm, chaining value, buffered bytes, count)
    LZero, LAdd(_, _), LMod(_, _),  \* byte counts (wide in the real instance)
    BZero, B80,        \* the bytes 0x00 and 0x80
    XorI(_), XorO(_)   \* byte xor 0x36, byte xor 0x5c

Min2(a, b) == IF a < b THEN a ELSE b
Rep(b, n) == [i \in 1..n |-> b]
Iota(n) == [i \in 1..n |-> i]

----------------------------------------------------------------------------
(* Standards: monolithic definitions over whole messages. *)

\* chaining value over the complete blocks of m, starting from h
ChainFrom(a, h, m) ==
    LET B == BlockOf(a) IN
    FoldLeft(LAMBDA x, i : CmpOf(a, x, SubSeq(m, (i - 1) * B + 1, i * B)), h, Iota(Len(m) \div B))
\* bytes of m after its last complete block
Rest(a, m) == SubSeq(m, (Len(m) \div BlockOf(a)) * BlockOf(a) + 1, Len(m))

\* padding of a message of which `tail` bytes lie past the last block and whose count is n
PadOf(a, tail, n) ==
    LET B == BlockOf(a)
        used == (tail + 1 + LenLenOf(a)) % B
        z == IF used = 0 THEN 0 ELSE B - used
    IN <<B80>> \o Rep(BZero, z) \o LenFieldOf(a, n)

\* digest of a message whose first n0 bytes (a whole number of blocks) led to chaining
\* value h0 and whose remaining bytes are m
StdDigestFrom(a, h0, n0, m) ==
    IF LenLenOf(a) = 0
    THEN TailOf(a, ChainFrom(a, h0, m), Rest(a, m), LAdd(n0, Len(m)))
    ELSE DigOf(a, ChainFrom(a, h0, m \o PadOf(a, Len(m) % BlockOf(a), LAdd(n0, Len(m)))))
StdDigest(a, k, m) == StdDigestFrom(a, IvOf(a, k), LZero, m)

\* RFC 2104 over any hash function H with block size B
MapI(s) == [i \in 1..Len(s) |-> XorI(s[i])]
MapO(s) == [i \in 1..Len(s) |-> XorO(s[i])]
MacKey0(H(_), B, key) == LET kk == IF Len(key) > B THEN H(key) ELSE key IN kk \o Rep(BZero, B - Len(kk))
StdMac(H(_), B, key, m) == LET k0 == MacKey0(H, B, key) IN H(MapO(k0) \o H(MapI(k0) \o m))
HmacKey0(a, key) == LET H(x) == StdDigest(a, <<>>, x) IN MacKey0(H, HmacBlockOf(a), key)
StdHmac(a, key, m) == LET H(x) == StdDigest(a, <<>>, x) IN StdMac(H, HmacBlockOf(a), key, m)

----------------------------------------------------------------------------
(* The engine as the library implements it. *)

\* A plain engine.  buf holds the buffered bytes (the first len mod block bytes of the
\* library's buffer); key is kept by SipHash only.
NewEngine(a, k) == [kind |-> "plain", alg |-> a, key |-> k, h |-> IvOf(a, k), buf |-> <<>>, len |-> LZero]

\* One iteration of the input loop: copy what fits, compress when full.
LoopStep(e, inp) ==
    LET B == BlockOf(e.alg)
        idx == LMod(e.len, B)
        wr == Min2(B - idx, Len(inp))
        nb == SubSeq(e.buf, 1, idx) \o SubSeq(inp, 1, wr)
        nl == LAdd(e.len, wr)
    IN [e |-> IF LMod(nl, B) = 0
              THEN [e EXCEPT !.h = CmpOf(e.alg, e.h, nb), !.buf = <<>>, !.len = nl]
              ELSE [e EXCEPT !.buf = nb, !.len = nl],
        inp |-> SubSeq(inp, wr + 1, Len(inp))]
RECURSIVE AbsorbLoop(_, _)
AbsorbLoop(e, inp) ==
    IF Len(inp) = 0 THEN e ELSE LET r == LoopStep(e, inp) IN AbsorbLoop(r.e, r.inp)

\* The same in one step (MC_Chf checks they agree).
AbsorbPlain(e, inp) ==
    LET t == e.buf \o inp
    IN [e EXCEPT !.h = ChainFrom(e.alg, e.h, t), !.buf = Rest(e.alg, t), !.len = LAdd(e.len, Len(inp))]

\* Finalisation as coded: 0x80, zeros (over the block end if they do not fit), length field.
FinishLoop(e) ==
    IF LenLenOf(e.alg) = 0 THEN TailOf(e.alg, e.h, e.buf, e.len)
    ELSE LET B == BlockOf(e.alg)
             Z == B - LenLenOf(e.alg)
             e1 == AbsorbLoop(e, <<B80>>)
             e2 == IF LMod(e1.len, B) > Z THEN AbsorbLoop(e1, Rep(BZero, Z)) ELSE e1
             e3 == AbsorbLoop(e2, Rep(BZero, Z - LMod(e2.len, B)))
             e4 == AbsorbLoop(e3, LenFieldOf(e.alg, e.len))
         IN DigOf(e.alg, e4.h)
\* The same by the standard's padding.
FinishPlain(e) ==
    IF LenLenOf(e.alg) = 0 THEN TailOf(e.alg, e.h, e.buf, e.len)
    ELSE DigOf(e.alg, ChainFrom(e.alg, e.h, e.buf \o PadOf(e.alg, Len(e.buf), e.len)))

\* Capture and resume.
CanResume(a, n) == LMod(n, BlockOf(a)) = 0
ResumePlain(a, h, n) == [kind |-> "plain", alg |-> a, key |-> <<>>, h |-> h, buf |-> <<>>, len |-> n]

----------------------------------------------------------------------------
(* HMAC engines: a pair of engines of any kind (HMAC over a tagged hash, or over HMAC itself,
   included), and the operations of either kind. *)
RECURSIVE Absorb(_, _), Finish(_), Count(_), MidOf(_), ShapeOf(_), ResumeAs(_, _, _)
Absorb(e, inp) == IF e.kind = "hmac" THEN [e EXCEPT !.i = Absorb(@, inp)] ELSE AbsorbPlain(e, inp)
Finish(e) == IF e.kind = "hmac" THEN Finish(Absorb(e.o, Finish(e.i))) ELSE FinishPlain(e)
Count(e) == IF e.kind = "hmac" THEN Count(e.i) ELSE e.len
\* What a captured midstate determines: the chaining value(s).
MidOf(e) == IF e.kind = "hmac" THEN MidOf(e.i) \o MidOf(e.o) ELSE <<e.h>>

\* HMAC over engines that start out as base, with blocks of B bytes
NewHmacOn(base, B, key) ==
    LET kk == IF Len(key) > B THEN Finish(Absorb(base, key)) ELSE key
        At0(i) == IF i <= Len(kk) THEN kk[i] ELSE BZero
    IN [kind |-> "hmac", alg |-> base.alg,
        i |-> Absorb(base, [j \in 1..B |-> XorI(At0(j))]),
        o |-> Absorb(base, [j \in 1..B |-> XorO(At0(j))])]
NewHmac(a, key) == NewHmacOn(NewEngine(a, <<>>), HmacBlockOf(a), key)

\* Resuming needs to know what sort of engine it was: its shape, which for HMAC includes the
\* count of the outer engine (it never changes after the key block).
ShapeOf(e) == IF e.kind = "hmac" THEN [kind |-> "hmac", alg |-> e.alg, i |-> ShapeOf(e.i), o |-> ShapeOf(e.o), olen |-> Count(e.o)]
              ELSE [kind |-> "plain", alg |-> e.alg]
\* Resume an engine of a shape from captured chaining values and a byte count.
ResumeAs(sh, mid, n) ==
    IF sh.kind = "hmac"
    THEN LET k == Len(mid) \div 2
         IN [kind |-> "hmac", alg |-> sh.alg, i |-> ResumeAs(sh.i, SubSeq(mid, 1, k), n),
             o |-> ResumeAs(sh.o, SubSeq(mid, k + 1, 2 * k), sh.olen)]
    ELSE ResumePlain(sh.alg, mid[1], n)
PlainShape(a) == [kind |-> "plain", alg |-> a]
=============================================================================

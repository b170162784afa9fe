------------------------------ MODULE MC_Sip ------------------------------
(* SipHash's input path at the level of the code: a partially filled tail word with a fill count,
   a loop over whole words, and unaligned loads of 4, 2 and 1 bytes for the rest.  Symbolic bytes,
   free compression.  For every sequence of pieces up to MaxMsg bytes in total the code's machine
   and the buffered machine of Engine.tla stay in correspondence, every load stays inside the
   piece, and the last word is the tail with a free byte for the length on top. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC
CONSTANTS MaxMsg, MaxPiece,
          Over     \* negative control: the tail is fetched with one eight-byte load

Z == 0
Byte(i) == i + 1                       \* the message's i-th byte (from 0), never zero
EmptyWord == [j \in 0..7 |-> Z]
OrW(a, b) == [j \in 0..7 |-> IF a[j] = Z THEN b[j] ELSE IF b[j] = Z THEN a[j] ELSE Assert(FALSE, "overlapping tail bytes")]
ShlW(a, k) == [j \in 0..7 |-> IF j >= k THEN a[j - k] ELSE Z]

VARIABLES len, tail, ntail, h, buf, loads
vars == <<len, tail, ntail, h, buf, loads>>
Init == len = 0 /\ tail = EmptyWord /\ ntail = 0 /\ h = <<>> /\ buf = <<>> /\ loads = {}

\* bytes at i..i+k-1 of a piece that starts at message offset o
LoadW(o, i, k) == [j \in 0..7 |-> IF j < k THEN Byte(o + i + j) ELSE Z]
\* u8to64_le(piece, start, n): loads of 4, 2, 1 bytes; the set of touched <<start, size>>
L4(n) == IF 3 < n THEN 4 ELSE 0
L2(n) == IF L4(n) + 1 < n THEN L4(n) + 2 ELSE L4(n)
U8To64(o, start, n) ==
    LET w4 == IF L4(n) = 4 THEN LoadW(o, start, 4) ELSE EmptyWord
        w2 == IF L2(n) > L4(n) THEN OrW(w4, ShlW(LoadW(o, start + L4(n), 2), L4(n))) ELSE w4
    IN IF L2(n) < n THEN OrW(w2, ShlW(LoadW(o, start + L2(n), 1), L2(n))) ELSE w2
Touch(start, n) == IF Over THEN (IF n > 0 THEN {<<start, 8>>} ELSE {}) ELSE
                   (IF L4(n) = 4 THEN {<<start, 4>>} ELSE {})
              \cup (IF L2(n) > L4(n) THEN {<<start + L4(n), 2>>} ELSE {})
              \cup (IF L2(n) < n THEN {<<start + L2(n), 1>>} ELSE {})
RECURSIVE Words(_, _, _, _)
Words(o, i, end, acc) == IF i < end THEN Words(o, i + 8, end, Append(acc, LoadW(o, i, 8))) ELSE <<acc, i>>

Min2(a, b) == IF a < b THEN a ELSE b
Input(k) ==
    LET o == len
        needed == IF ntail # 0 THEN 8 - ntail ELSE 0
        t1 == IF ntail # 0 THEN OrW(tail, ShlW(U8To64(o, 0, Min2(k, needed)), ntail)) ELSE tail
        touch1 == IF ntail # 0 THEN Touch(0, Min2(k, needed)) ELSE {}
        rest == k - needed
        left == rest % 8
        r == Words(o, needed, rest - left, IF ntail # 0 THEN Append(h, t1) ELSE h)
    IN /\ len' = len + k
       /\ IF ntail # 0 /\ k < needed
          THEN /\ ntail' = ntail + k /\ tail' = t1 /\ UNCHANGED h
               /\ loads' = {<<x[1], x[2], k>> : x \in touch1}
          ELSE /\ h' = r[1] /\ tail' = U8To64(o, r[2], left) /\ ntail' = left
               /\ loads' = {<<x[1], x[2], k>> : x \in touch1 \cup Touch(r[2], left)}
                           \cup (IF r[2] > needed THEN {<<r[2] - 8, 8, k>>} ELSE {})
       \* the specification's machine
       /\ buf' = LET t == buf \o [i \in 1..k |-> Byte(len + i - 1)] IN SubSeq(t, (Len(t) \div 8) * 8 + 1, Len(t))
Next == \E k \in 0..MaxPiece : len + k <= MaxMsg /\ Input(k)

----------------------------------------------------------------------------
WordAt(i) == [j \in 0..7 |-> Byte(8 * i + j)]
\* exactly the complete words have been compressed, in order
WordsExact == h = [i \in 1..(len \div 8) |-> WordAt(i - 1)]
TailExact == /\ ntail = Len(buf) /\ ntail = len % 8
             /\ tail = [j \in 0..7 |-> IF j < Len(buf) THEN buf[j + 1] ELSE Z]
\* the final word has room for the length byte: position 7 is free
LengthByteFree == tail[7] = Z
LoadsInside == \A x \in loads : x[1] + x[2] <= x[3]
=============================================================================

----------------------------- MODULE Words -----------------------------
(* Machine words for the specification.

   TLC's integers are 32-bit signed, so a w-bit word is a big-endian sequence of 16-bit
   limbs: <<hi, lo>> for 32 bits, <<l3, l2, l1, l0>> for 64.  MC_Words checks these
   operators against plain integer arithmetic. *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

----------------------------------------------------------------------------
\* 32-bit words
Add32(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)    == <<65535 - a[1], 65535 - a[2]>>
Rot32S(a, n) == LET p == Pow2[n + 1] q == Pow2[17 - n]
                IN <<(a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q>>
Rotr32(a, n) == IF n >= 16 THEN Rot32S(<<a[2], a[1]>>, n - 16) ELSE Rot32S(a, n)
Rotl32(a, n) == IF n = 0 THEN a ELSE Rotr32(a, 32 - n)
\* logical shift right, n < 16
Shr32(a, n) == LET p == Pow2[n + 1] q == Pow2[17 - n]
               IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q>>

----------------------------------------------------------------------------
\* 64-bit words
Add64(a, b) ==
    LET s4 == a[4] + b[4]
        s3 == a[3] + b[3] + (s4 \div 65536)
        s2 == a[2] + b[2] + (s3 \div 65536)
        s1 == a[1] + b[1] + (s2 \div 65536)
    IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a)    == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Rot64S(a, n) ==
    LET p == Pow2[n + 1] q == Pow2[17 - n]
    IN <<(a[1] \div p) + (a[4] % p) * q, (a[2] \div p) + (a[1] % p) * q,
         (a[3] \div p) + (a[2] % p) * q, (a[4] \div p) + (a[3] % p) * q>>
Rotr64(a, n) ==
    CASE n < 16 -> Rot64S(a, n)
      [] n \in 16..31 -> Rot64S(<<a[4], a[1], a[2], a[3]>>, n - 16)
      [] n \in 32..47 -> Rot64S(<<a[3], a[4], a[1], a[2]>>, n - 32)
      [] OTHER        -> Rot64S(<<a[2], a[3], a[4], a[1]>>, n - 48)
Rotl64(a, n) == IF n = 0 THEN a ELSE Rotr64(a, 64 - n)
\* logical shift right, n < 16
Shr64(a, n) ==
    LET p == Pow2[n + 1] q == Pow2[17 - n]
    IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q,
         (a[3] \div p) + (a[2] % p) * q, (a[4] \div p) + (a[3] % p) * q>>

Zero64 == <<0, 0, 0, 0>>
\* a natural number below 2^31 as a 64-bit word
Nat64(n) == <<0, 0, n \div 65536, n % 65536>>
\* a mod m for m a power of two not above 2^16
Mod64(a, m) == a[4] % m
\* 8*a mod 2^64 (byte count to bit count)
Times8(a) == <<(a[1] * 8 + (a[2] \div 8192)) % 65536, (a[2] * 8 + (a[3] \div 8192)) % 65536,
               (a[3] * 8 + (a[4] \div 8192)) % 65536, (a[4] * 8) % 65536>>
\* 8*a div 2^64: the high word of the 128-bit bit count
Times8Hi(a) == Nat64(a[1] \div 8192)

Less64(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
Neg64(a) == Add64(Not64(a), Nat64(1))
Sub64(a, b) == Add64(a, Neg64(b))

----------------------------------------------------------------------------
\* bytes <-> words
BE32(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
LE32(b, i) == <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
BE64(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3],
                b[i + 4] * 256 + b[i + 5], b[i + 6] * 256 + b[i + 7]>>
LE64(b, i) == <<b[i + 7] * 256 + b[i + 6], b[i + 5] * 256 + b[i + 4],
                b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
BytesBE(w) == [i \in 1..(2 * Len(w)) |->
                 IF i % 2 = 1 THEN w[(i + 1) \div 2] \div 256 ELSE w[i \div 2] % 256]
BytesLE(w) == LET n == 2 * Len(w) IN
              [i \in 1..n |-> LET j == n + 1 - i IN
                 IF j % 2 = 1 THEN w[(j + 1) \div 2] \div 256 ELSE w[j \div 2] % 256]
FlatBE(ws) == FoldLeft(LAMBDA s, w : s \o BytesBE(w), <<>>, ws)
FlatLE(ws) == FoldLeft(LAMBDA s, w : s \o BytesLE(w), <<>>, ws)

Zeros(n) == [i \in 1..n |-> 0]
=============================================================================

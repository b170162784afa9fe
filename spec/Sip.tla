------------------------------- MODULE Sip -------------------------------
(* SipHash-2-4 (Aumasson, Bernstein 2012): state words <<v0, v1, v2, v3>>. *)
EXTENDS Words

SipInit(k0, k1) ==
    <<Xor64(k0, <<29551, 28005, 28787, 25973>>),   \* "somepseu"
      Xor64(k1, <<25711, 29281, 28260, 28525>>),   \* "dorandom"
      Xor64(k0, <<27769, 26469, 28261, 29281>>),   \* "lygenera"
      Xor64(k1, <<29797, 25698, 31092, 25971>>)>>  \* "tedbytes"
SipRound(v) ==
    LET a0 == Add64(v[1], v[2])
        a1 == Xor64(Rotl64(v[2], 13), a0)
        b0 == Rotl64(a0, 32)
        a2 == Add64(v[3], v[4])
        a3 == Xor64(Rotl64(v[4], 16), a2)
        c0 == Add64(b0, a3)
        c3 == Xor64(Rotl64(a3, 21), c0)
        c2 == Add64(a2, a1)
        c1 == Xor64(Rotl64(a1, 17), c2)
    IN <<c0, c1, Rotl64(c2, 32), c3>>
\* absorb one 64-bit message word
SipWord(v, m) ==
    LET w == SipRound(SipRound(<<v[1], v[2], v[3], Xor64(v[4], m)>>))
    IN <<Xor64(w[1], m), w[2], w[3], w[4]>>
\* finalise: b is the last word (remaining bytes and the byte count mod 256)
SipFinish(v, b) ==
    LET w == SipWord(v, b)
        f == SipRound(SipRound(SipRound(SipRound(<<w[1], w[2], Xor64(w[3], <<0, 0, 0, 255>>), w[4]>>))))
    IN Xor64(Xor64(f[1], f[2]), Xor64(f[3], f[4]))
=============================================================================

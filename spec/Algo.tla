------------------------------ MODULE Algo ------------------------------
(* The real algorithms, as definitions for the constant operators of Engine.tla.
   Byte counts are 64-bit words (Words.tla), bytes are 0..255. *)
EXTENDS Sha1, Sha256, Sha512, Ripemd160, Sip, User

HashAlgs == {"sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"}
AllAlgs == HashAlgs \cup {"siphash24"}

RBlock(a) == CASE a \in {"sha1", "sha256", "ripemd160"} -> 64
               [] a \in {"sha384", "sha512", "sha512_256"} -> 128
               [] a = "siphash24" -> 8
               [] IsUser(a) -> UBlock(a)
RHmacBlock(a) == IF a = "siphash24" THEN 32 ELSE RBlock(a)
RLenLen(a) == CASE a \in {"sha1", "sha256", "ripemd160"} -> 8
                [] a \in {"sha384", "sha512", "sha512_256"} -> 16
                [] a = "siphash24" \/ IsUser(a) -> 0
RDigLen(a) == CASE a \in {"sha1", "ripemd160"} -> 20 [] a = "sha256" -> 32 [] a = "sha384" -> 48
                [] a = "sha512" -> 64 [] a = "sha512_256" -> 32 [] a = "siphash24" -> 8
                [] IsUser(a) -> UDigLen(a)
\* evaluated once
LOCAL Iv512t == IV512_256
\* key: <<k0, k1>> for SipHash (<<>> means both zero), ignored otherwise
RIv(a, k) == CASE a \in {"sha1", "ripemd160"} -> IVMD
               [] a = "sha256" -> IV256
               [] a = "sha384" -> IV384
               [] a = "sha512" -> IV512
               [] a = "sha512_256" -> Iv512t
               [] a = "siphash24" -> IF k = <<>> THEN SipInit(Zero64, Zero64) ELSE SipInit(k[1], k[2])
               [] IsUser(a) -> UIv(a)
RCmp(a, h, b) == CASE a = "sha1" -> Sha1Compress(h, b)
                   [] a = "sha256" -> Sha256Compress(h, b)
                   [] a \in {"sha384", "sha512", "sha512_256"} -> Sha512Compress(h, b)
                   [] a = "ripemd160" -> Ripemd160Compress(h, b)
                   [] a = "siphash24" -> SipWord(h, LE64(b, 1))
                   [] IsUser(a) -> UCmp(h, b)
RLenField(a, n) == CASE a \in {"sha1", "sha256"} -> BytesBE(Times8(n))
                     [] a = "ripemd160" -> BytesLE(Times8(n))
                     [] OTHER -> BytesBE(Times8Hi(n)) \o BytesBE(Times8(n))
\* chaining value as the library's midstate bytes
RMidBytes(a, h) == IF a = "ripemd160" THEN FlatLE(h) ELSE IF IsUser(a) THEN h ELSE FlatBE(h)
RMidWords(a, b) == CASE a \in {"sha1", "sha256"} -> [i \in 1..(Len(b) \div 4) |-> BE32(b, 4 * i - 3)]
                     [] a = "ripemd160" -> [i \in 1..5 |-> LE32(b, 4 * i - 3)]
                     [] IsUser(a) -> b
                     [] OTHER -> [i \in 1..8 |-> BE64(b, 8 * i - 7)]
RDig(a, h) == SubSeq(RMidBytes(a, h), 1, RDigLen(a))
\* the 64-bit result of SipHash, and its byte form
RSip64(v, buf, n) == SipFinish(v, LE64(buf \o Zeros(7 - Len(buf)) \o <<n[4] % 256>>, 1))
RTail(a, v, buf, n) == IF IsUser(a) THEN UTail(a, v, buf, n) ELSE BytesLE(RSip64(v, buf, n))
RLAdd(n, k) == Add64(n, Nat64(k))
RLMod(n, m) == Mod64(n, m)
RXorI(b) == b ^^ 54
RXorO(b) == b ^^ 92
R80 == 128
R0 == 0
=============================================================================

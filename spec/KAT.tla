------------------------------- MODULE KAT -------------------------------
(* Known-answer tests of the specification itself: published vectors (FIPS 180-4 examples,
   the RIPEMD-160 paper, the SipHash paper's appendix, RFC 2202 / RFC 4231, BIP-340). *)
EXTENDS Engine, Algo, TLC

HexDigits == "0123456789abcdef"
HexVal(c) == CHOOSE v \in 0..15 : SubSeq(HexDigits, v + 1, v + 1) = c
FromHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(SubSeq(s, 2 * i - 1, 2 * i - 1)) + HexVal(SubSeq(s, 2 * i, 2 * i))]
Abc == <<97, 98, 99>>
D(a, m, x) == IF StdDigest(a, <<>>, m) = FromHex(x) THEN TRUE ELSE PrintT(<<"KAT mismatch", a, m, StdDigest(a, <<>>, m)>>) /\ FALSE
\* "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
M56 == [i \in 1..56 |-> 97 + (i - 1) \div 4 + ((i - 1) % 4)]
\* "abcdefghbcdefghi...nopqrstu" (112 bytes)
M112 == [i \in 1..112 |-> 97 + (i - 1) \div 8 + ((i - 1) % 8)]

ASSUME D("sha1", <<>>, "da39a3ee5e6b4b0d3255bfef95601890afd80709")
ASSUME D("sha1", Abc, "a9993e364706816aba3e25717850c26c9cd0d89d")
ASSUME D("sha1", M56, "84983e441c3bd26ebaae4aa1f95129e5e54670f1")
ASSUME D("sha256", <<>>, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")
ASSUME D("sha256", Abc, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
ASSUME D("sha256", M56, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1")
ASSUME D("sha384", <<>>, "38b060a751ac96384cd9327eb1b1e36a21fdb71114be07434c0cc7bf63f6e1da274edebfe76f65fbd51ad2f14898b95b")
ASSUME D("sha384", Abc, "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")
ASSUME D("sha384", M112, "09330c33f71147e83d192fc782cd1b4753111b173b3b05d22fa08086e3b0f712fcc7c71a557e2db966c3e9fa91746039")
ASSUME D("sha512", <<>>, "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e")
ASSUME D("sha512", Abc, "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
ASSUME D("sha512", M112, "8e959b75dae313da8cf4f72814fc143f8f7779c6eb9f7fa17299aeadb6889018501d289e4900f7e4331b99dec4b5433ac7d329eeb6dd26545e96e55b874be909")
ASSUME D("sha512_256", Abc, "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23")
ASSUME D("sha512_256", <<>>, "c672b8d1ef56ed28ab87c3622c5114069bdd3ad7b8f9737498d0c01ecef0967a")
ASSUME D("sha512_256", M112, "3928e184fb8690f840da3988121d31be65cb9d3ef83ee6146feac861e19b563a")
ASSUME D("ripemd160", <<>>, "9c1185a5c5e9fc54612808977ee8f548b2258d31")
ASSUME D("ripemd160", Abc, "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")
ASSUME D("ripemd160", M56, "12a053384a9c0c88e405a06c27dcf49ada62eb2b")
\* SipHash paper: key 00..0f, message 00..0e -> a129ca6149be45e5 (as an integer)
SipKey == <<LE64([i \in 1..8 |-> i - 1], 1), LE64([i \in 1..8 |-> i + 7], 1)>>
ASSUME StdDigest("siphash24", SipKey, [i \in 1..15 |-> i - 1]) = FromHex("e545be4961ca29a1")
ASSUME StdDigest("siphash24", SipKey, <<>>) = FromHex("310e0edd47db6f72")
ASSUME StdDigest("siphash24", SipKey, [i \in 1..63 |-> i - 1]) = FromHex("724506eb4c328a95")
\* RFC 4231 test case 2, 3, 6 (key "Jefe"; 20 x aa; 131 x aa)
Jefe == <<74, 101, 102, 101>>
WhatDo == <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97, 32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>
H(a, k, m, x) == IF StdHmac(a, k, m) = FromHex(x) THEN TRUE ELSE PrintT(<<"HMAC KAT mismatch", a>>) /\ FALSE
ASSUME H("sha256", Jefe, WhatDo, "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")
ASSUME H("sha384", Jefe, WhatDo, "af45d2e376484031617f78d2b58a6b1b9c7ef464f5a01b47e42ec3736322445e8e2240ca5e69e2c78b3239ecfab21649")
ASSUME H("sha512", Jefe, WhatDo, "164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737")
ASSUME H("sha1", Jefe, WhatDo, "effcdf6ae5eb2fa2d27416d5f184df9c259a7c79")
ASSUME H("sha256", [i \in 1..131 |-> 170],
         \* "Test Using Larger Than Block-Size Key - Hash Key First"
         <<84,101,115,116,32,85,115,105,110,103,32,76,97,114,103,101,114,32,84,104,97,110,32,66,108,111,99,107,45,83,105,122,101,32,75,101,121,32,45,32,72,97,115,104,32,75,101,121,32,70,105,114,115,116>>,
         "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

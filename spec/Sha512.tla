----------------------------- MODULE Sha512 -----------------------------
(* SHA-512 compression, FIPS 180-4 section 6.4.2, and the SHA-512/256 initial value by the
   IV generation function of section 5.3.6. *)
EXTENDS Words, Consts

LOCAL T64 == [i \in 1..64 |-> 16 + i]
LOCAL T80 == [i \in 1..80 |-> i]
LOCAL X3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2],
                       (a[3] ^^ b[3]) ^^ c[3], (a[4] ^^ b[4]) ^^ c[4]>>
LOCAL BigS0(x) == X3(Rotr64(x, 28), Rotr64(x, 34), Rotr64(x, 39))
LOCAL BigS1(x) == X3(Rotr64(x, 14), Rotr64(x, 18), Rotr64(x, 41))
LOCAL SmallS0(x) == X3(Rotr64(x, 1), Rotr64(x, 8), Shr64(x, 7))
LOCAL SmallS1(x) == X3(Rotr64(x, 19), Rotr64(x, 61), Shr64(x, 6))
LOCAL Ch(x, y, z) == Xor64(And64(x, y), And64(Not64(x), z))
LOCAL Maj(x, y, z) == X3(And64(x, y), And64(x, z), And64(y, z))
LOCAL W512(b) == [i \in 1..16 |-> BE64(b, 8 * i - 7)]
LOCAL Sched(b) ==
    FoldLeft(LAMBDA w, t : Append(w, Add64(Add64(SmallS1(w[t - 2]), w[t - 7]),
                                           Add64(SmallS0(w[t - 15]), w[t - 16]))),
             W512(b), T64)

Sha512Compress(h, b) ==
    LET w == Sched(b)
        Step(v, t) ==
            LET t1 == Add64(Add64(Add64(v[8], BigS1(v[5])), Add64(Ch(v[5], v[6], v[7]), K512[t])), w[t])
                t2 == Add64(BigS0(v[1]), Maj(v[1], v[2], v[3]))
            IN <<Add64(t1, t2), v[1], v[2], v[3], Add64(v[4], t1), v[5], v[6], v[7]>>
        r == FoldLeft(Step, h, T80)
    IN [i \in 1..8 |-> Add64(h[i], r[i])]

\* "SHA-512/256" followed by its padding: one block, bit length 88
LOCAL IvName == <<83, 72, 65, 45, 53, 49, 50, 47, 50, 53, 54>>
LOCAL A5 == <<42405, 42405, 42405, 42405>>
IV512_256 == Sha512Compress([i \in 1..8 |-> Xor64(IV512[i], A5)],
                            IvName \o <<128>> \o Zeros(115) \o <<88>>)
=============================================================================

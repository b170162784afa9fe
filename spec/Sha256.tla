----------------------------- MODULE Sha256 -----------------------------
(* SHA-256 compression, FIPS 180-4 section 6.2.2. *)
EXTENDS Words, Consts

LOCAL T48 == [i \in 1..48 |-> 16 + i]
LOCAL T64 == [i \in 1..64 |-> i]
LOCAL X3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
LOCAL BigS0(x) == X3(Rotr32(x, 2), Rotr32(x, 13), Rotr32(x, 22))
LOCAL BigS1(x) == X3(Rotr32(x, 6), Rotr32(x, 11), Rotr32(x, 25))
LOCAL SmallS0(x) == X3(Rotr32(x, 7), Rotr32(x, 18), Shr32(x, 3))
LOCAL SmallS1(x) == X3(Rotr32(x, 17), Rotr32(x, 19), Shr32(x, 10))
LOCAL Ch(x, y, z) == Xor32(And32(x, y), And32(Not32(x), z))
LOCAL Maj(x, y, z) == X3(And32(x, y), And32(x, z), And32(y, z))
LOCAL W256(b) == [i \in 1..16 |-> BE32(b, 4 * i - 3)]
LOCAL Sched(b) ==
    FoldLeft(LAMBDA w, t : Append(w, Add32(Add32(SmallS1(w[t - 2]), w[t - 7]),
                                           Add32(SmallS0(w[t - 15]), w[t - 16]))),
             W256(b), T48)

Sha256Compress(h, b) ==
    LET w == Sched(b)
        Step(v, t) ==
            LET t1 == Add32(Add32(Add32(v[8], BigS1(v[5])), Add32(Ch(v[5], v[6], v[7]), K256[t])), w[t])
                t2 == Add32(BigS0(v[1]), Maj(v[1], v[2], v[3]))
            IN <<Add32(t1, t2), v[1], v[2], v[3], Add32(v[4], t1), v[5], v[6], v[7]>>
        r == FoldLeft(Step, h, T64)
    IN [i \in 1..8 |-> Add32(h[i], r[i])]
=============================================================================

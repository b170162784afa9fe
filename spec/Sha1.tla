------------------------------ MODULE Sha1 ------------------------------
(* SHA-1 compression, FIPS 180-4 section 6.1.2. *)
EXTENDS Words, Consts

LOCAL T64 == [i \in 1..64 |-> 16 + i]
LOCAL T80 == [i \in 1..80 |-> i]
LOCAL Words1(b) == [i \in 1..16 |-> BE32(b, 4 * i - 3)]
LOCAL Sched1(b) ==
    FoldLeft(LAMBDA w, t : Append(w, Rotl32(Xor32(Xor32(w[t - 3], w[t - 8]), Xor32(w[t - 14], w[t - 16])), 1)),
             Words1(b), T64)
LOCAL F1(t, x, y, z) ==
    CASE t <= 20 -> Xor32(And32(x, y), And32(Not32(x), z))
      [] t \in 21..40 -> Xor32(Xor32(x, y), z)
      [] t \in 41..60 -> Xor32(Xor32(And32(x, y), And32(x, z)), And32(y, z))
      [] OTHER -> Xor32(Xor32(x, y), z)

Sha1Compress(h, b) ==
    LET w == Sched1(b)
        Step(v, t) ==
            LET tmp == Add32(Add32(Add32(Rotl32(v[1], 5), F1(t, v[2], v[3], v[4])),
                                   Add32(v[5], K1[(t - 1) \div 20 + 1])), w[t])
            IN <<tmp, v[1], Rotl32(v[2], 30), v[3], v[4]>>
        r == FoldLeft(Step, h, T80)
    IN [i \in 1..5 |-> Add32(h[i], r[i])]
=============================================================================

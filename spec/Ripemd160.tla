---------------------------- MODULE Ripemd160 ----------------------------
(* RIPEMD-160 compression (Dobbertin, Bosselaers, Preneel 1996). *)
EXTENDS Words, Consts

LOCAL RL == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
              7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
              3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
              1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
              4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13>>
LOCAL RR == <<5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
              6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
              15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
              8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
              12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11>>
LOCAL SL == <<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
              7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
              11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
              11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
              9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6>>
LOCAL SR == <<8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
              9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
              9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
              15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
              8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11>>
LOCAL T80 == [i \in 1..80 |-> i]
\* boolean function of round r (1..5)
LOCAL FR(r, x, y, z) ==
    CASE r = 1 -> Xor32(Xor32(x, y), z)
      [] r = 2 -> Or32(And32(x, y), And32(Not32(x), z))
      [] r = 3 -> Xor32(Or32(x, Not32(y)), z)
      [] r = 4 -> Or32(And32(x, z), And32(y, Not32(z)))
      [] OTHER -> Xor32(x, Or32(y, Not32(z)))
LOCAL Line(h, w, left) ==
    LET Step(v, t) ==
          LET rd == (t - 1) \div 16 + 1
              f  == IF left THEN FR(rd, v[2], v[3], v[4]) ELSE FR(6 - rd, v[2], v[3], v[4])
              x  == IF left THEN w[RL[t] + 1] ELSE w[RR[t] + 1]
              k  == IF left THEN KRL[rd] ELSE KRR[rd]
              s  == IF left THEN SL[t] ELSE SR[t]
              tt == Add32(Rotl32(Add32(Add32(v[1], f), Add32(x, k)), s), v[5])
          IN <<v[5], tt, v[2], Rotl32(v[3], 10), v[4]>>
    IN FoldLeft(Step, h, T80)

Ripemd160Compress(h, b) ==
    LET w == [i \in 1..16 |-> LE32(b, 4 * i - 3)]
        l == Line(h, w, TRUE)
        r == Line(h, w, FALSE)
        A3(x, y, z) == Add32(Add32(x, y), z)
    IN <<A3(h[2], l[3], r[4]), A3(h[3], l[4], r[5]), A3(h[4], l[5], r[1]),
         A3(h[5], l[1], r[2]), A3(h[1], l[2], r[3])>>
=============================================================================

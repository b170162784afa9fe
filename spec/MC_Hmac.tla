----------------------------- MODULE MC_Hmac -----------------------------
(* HMAC over the symbolic family: for every key length up to MaxKey (so shorter than, equal to
   and longer than the block), every message length and every two-piece split, the pair-of-engines
   construction of the library equals RFC 2104; the default engine is the one of the empty key;
   distinct (key, message) pairs give distinct results unless RFC 2104 itself identifies the keys
   (trailing zero bytes of short keys, hashing of long ones). *)
EXTENDS Chf, Toy, TLC, FiniteSets
CONSTANTS MaxKey, MaxMsg

VARIABLES alg, key, n, cut
vars == <<alg, key, n, cut>>
KeySym(i) == <<1, 8, i>>
Msg == [i \in 1..n |-> <<1, 1, i>>]
Init == alg \in {"a", "w"} /\ key = <<>> /\ n = 0 /\ cut = 0
Next == \/ Len(key) < MaxKey /\ n = 0 /\ key' = Append(key, KeySym(Len(key) + 1)) /\ UNCHANGED <<alg, n, cut>>
        \/ n < MaxMsg /\ cut = 0 /\ n' = n + 1 /\ UNCHANGED <<alg, key, cut>>
        \/ cut < n /\ cut' = cut + 1 /\ UNCHANGED <<alg, key, n>>

E0 == NewHmac(alg, key)
E2 == Absorb(Absorb(E0, SubSeq(Msg, 1, cut)), SubSeq(Msg, cut + 1, n))
IsRfc2104 == Finish(E2) = StdHmac(alg, key, Msg)
CountFromKeyBlock == Count(E2) = HmacBlockOf(alg) + n
OuterUntouched == E2.o = E0.o /\ E0.o.buf = <<>> /\ E0.i.buf = <<>>
\* capture after whole blocks and resume
ResumesExactly ==
    LET b == BlockOf(alg) IN
    (HmacBlockOf(alg) + n) % b = 0 =>
        LET r == ResumeAs(ShapeOf(E2), MidOf(E2), Count(E2)) IN
        \A k \in 0..(b + 1) : LET p == [i \in 1..k |-> <<1, 2, i>>]
                              IN Finish(Absorb(r, p)) = Finish(Absorb(E2, p)) /\ Count(r) = Count(E2)
=============================================================================

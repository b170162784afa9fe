----------------------------- MODULE MC_Words -----------------------------
(* The word operators against a second definition, bit by bit: a word is the set of positions of
   its one bits, addition is the ripple-carry adder, rotation and shift move positions.  All pairs
   of words whose 16-bit limbs come from Limbs. *)
EXTENDS Words, FiniteSets
CONSTANTS Limbs

VARIABLES a, b, done
vars == <<a, b, done>>
Init == a \in [1..4 -> Limbs] /\ b = Zero64 /\ done = FALSE
Next == ~done /\ b' \in [1..4 -> Limbs] /\ done' = TRUE /\ UNCHANGED a

\* bit i (0: least significant) of a word of limbs
Bit(w, i) == (w[Len(w) - (i \div 16)] \div Pow2[(i % 16) + 1]) % 2
Size(w) == 16 * Len(w)
Ones(w) == {i \in 0..(Size(w) - 1) : Bit(w, i) = 1}
Lo32(w) == <<w[3], w[4]>>

\* ripple carry from the lowest position
AddOnes(v, w) ==
    FoldLeft(LAMBDA r, i : LET t == Bit(v, i - 1) + Bit(w, i - 1) + r.c
                           IN [c |-> t \div 2, s |-> IF (t % 2) = 1 THEN r.s \cup {i - 1} ELSE r.s],
             [c |-> 0, s |-> {}], [i \in 1..Size(v) |-> i]).s
RotOnes(w, k) == {(i + Size(w) - k) % Size(w) : i \in Ones(w)}

IsWord(w, n) == DOMAIN w = 1..n /\ \A i \in 1..n : w[i] \in 0..65535
Unary == ~done =>
    /\ \A k \in 0..63 : /\ Ones(Rotr64(a, k)) = RotOnes(a, k) /\ IsWord(Rotr64(a, k), 4)
                        /\ Ones(Rotl64(a, k)) = RotOnes(a, (64 - k) % 64)
    /\ \A k \in 0..31 : /\ Ones(Rotr32(Lo32(a), k)) = RotOnes(Lo32(a), k) /\ IsWord(Rotr32(Lo32(a), k), 2)
                        /\ Ones(Rotl32(Lo32(a), k)) = RotOnes(Lo32(a), (32 - k) % 32)
    /\ \A k \in 0..15 : /\ Ones(Shr64(a, k)) = {i - k : i \in {j \in Ones(a) : j >= k}}
                        /\ Ones(Shr32(Lo32(a), k)) = {i - k : i \in {j \in Ones(Lo32(a)) : j >= k}}
    /\ Ones(Not64(a)) = (0..63) \ Ones(a)
    /\ Ones(Not32(Lo32(a))) = (0..31) \ Ones(Lo32(a))
    /\ Ones(Times8(a)) = {i + 3 : i \in {j \in Ones(a) : j <= 60}}
    /\ Ones(Times8Hi(a)) = {i - 61 : i \in {j \in Ones(a) : j >= 61}}
    /\ \A k \in 0..16 : LET m == Pow2[k + 1] IN Ones(Nat64(Mod64(a, m))) = {i \in Ones(a) : i < k}
    /\ Add64(a, Neg64(a)) = Zero64
    \* bytes
    /\ BE64(BytesBE(a), 1) = a /\ LE64(BytesLE(a), 1) = a
    /\ BE32(BytesBE(Lo32(a)), 1) = Lo32(a) /\ LE32(BytesLE(Lo32(a)), 1) = Lo32(a)
    /\ BytesLE(a) = Reverse(BytesBE(a))
    /\ \A i \in 1..8 : BytesLE(a)[i] = FoldLeft(LAMBDA s, j : s + Pow2[j + 1] * Bit(a, 8 * (i - 1) + j), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Binary == done =>
    /\ Ones(Add64(a, b)) = AddOnes(a, b) /\ IsWord(Add64(a, b), 4)
    /\ Ones(Add32(Lo32(a), Lo32(b))) = AddOnes(Lo32(a), Lo32(b)) /\ IsWord(Add32(Lo32(a), Lo32(b)), 2)
    /\ Add64(Sub64(a, b), b) = a
    /\ Ones(Xor64(a, b)) = (Ones(a) \ Ones(b)) \cup (Ones(b) \ Ones(a))
    /\ Ones(And64(a, b)) = Ones(a) \cap Ones(b)
    /\ Ones(Xor32(Lo32(a), Lo32(b))) = (Ones(Lo32(a)) \ Ones(Lo32(b))) \cup (Ones(Lo32(b)) \ Ones(Lo32(a)))
    /\ Ones(And32(Lo32(a), Lo32(b))) = Ones(Lo32(a)) \cap Ones(Lo32(b))
    /\ Ones(Or32(Lo32(a), Lo32(b))) = Ones(Lo32(a)) \cup Ones(Lo32(b))
    \* the larger word has the highest bit in which the two differ
    /\ LET d == Ones(Xor64(a, b)) IN Less64(a, b) = (d # {} /\ (CHOOSE i \in d : \A j \in d : j <= i) \in Ones(b))
=============================================================================

----------------------------- MODULE MC_Codec -----------------------------
(* Laws of hash values, exhaustively for small types: text and serialised forms are read back,
   nothing else is read, views and writes touch what they should, the order is a total order.

   The machine holds two values and a buffer and performs every operation of the interface. *)
EXTENDS Values, TLC
CONSTANTS N,        \* bytes of a value
          Bytes,    \* byte values that occur
          Alphabet, \* code points of texts offered to the parser
          MaxText,  \* longest text offered
          Margin    \* bytes around the viewed part of the buffer
VARIABLES a, b, buf
vars == <<a, b, buf>>
Vals == [1..N -> Bytes]
Zero == [i \in 1..N |-> 0]
BufLen == N + 2 * Margin
RECURSIVE TextsUpTo(_)
TextsUpTo(k) == IF k = 0 THEN {<<>>} ELSE LET s == TextsUpTo(k - 1) IN s \cup {Append(t, c) : t \in {x \in s : Len(x) = k - 1}, c \in Alphabet}

Init == a = Zero /\ b = Zero /\ buf = [i \in 1..BufLen |-> 7]
Build == \E v \in Vals : a' = v /\ UNCHANGED <<b, buf>>
Swap == a' = b /\ b' = a /\ UNCHANGED buf
\* what is offered to the parser either denotes the value or changes nothing
Parse == \E t \in TextsUpTo(MaxText) :
            /\ a' = IF Accepts(N, t) THEN Denotes(t) ELSE a
            /\ UNCHANGED <<b, buf>>
WriteView == buf' = Splice(buf, Margin, a) /\ UNCHANGED <<a, b>>
ReadView == a' = SubSeq(buf, Margin + 1, Margin + N) /\ UNCHANGED <<b, buf>>
Next == Build \/ Swap \/ Parse \/ WriteView \/ ReadView

Opts == [tr : {"lower", "upper"}, fill : {32, 48}, al : {"l", "c", "r"}, alt : BOOLEAN, zero : {FALSE}, w : {-1, 0, 2 * N + 3}, p : {-1, 0, 1, 2 * N}]
TypeOK == DOMAIN a = 1..N /\ DOMAIN b = 1..N /\ Len(buf) = BufLen
RoundTrip == \A v \in {a, b} : \A u \in BOOLEAN : Accepts(N, HexText(v, u)) /\ Denotes(HexText(v, u)) = v
OneText == (HexText(a, FALSE) = HexText(b, FALSE)) = (a = b)
Serial == \A hr \in BOOLEAN : LET w == Written(a, hr) IN MustRead(N, hr, w.kind, w.v) /\ ReadAs(hr, w.v) = a
NotBoth == \A hr \in BOOLEAN : LET w == Written(a, hr) IN ~MayRead(N, ~hr, w.kind, w.v) \/ (w.kind = "bytes" /\ Accepts(N, w.v))
Widths == \A o \in Opts :
    LET t == Formatted(a, o, o.al)
        body == (IF o.alt THEN Prefix0x ELSE <<>>) \o Digits(a, o)
    IN /\ Len(t) = (IF o.w > Len(body) THEN o.w ELSE Len(body))
       /\ HasText(t, body)
       /\ (o.al = "l" => SubSeq(t, 1, Len(body)) = body)
       /\ (o.al = "r" => SubSeq(t, Len(t) - Len(body) + 1, Len(t)) = body)
PlainText == \A u \in BOOLEAN : Formatted(a, [tr |-> IF u THEN "upper" ELSE "lower", fill |-> 32, al |-> "n", alt |-> FALSE, zero |-> FALSE, w |-> -1, p |-> -1], "r") = HexText(a, u)
Order == /\ (Cmp(a, b) = 0) = (a = b)
         /\ Cmp(a, b) = -Cmp(b, a)
         /\ \A c \in Vals : (Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0) => Cmp(a, c) <= 0
\* the order of values is the order of their texts and of the numbers they denote
OrderText == Cmp(a, b) = Cmp(HexText(a, FALSE), HexText(b, FALSE))
Margins == \A i \in 1..BufLen : (i <= Margin \/ i > Margin + N) => buf[i] = 7
Ranges == \A f \in {"i", "r", "f", "t", "a", "ri", "ti"} : \A x, y \in 0..(N + 2) :
    InRange(N, f, x, y) => \A i \in DOMAIN Indexed(a, f, x, y) : \E j \in 1..N : Indexed(a, f, x, y)[i] = a[j]
=============================================================================

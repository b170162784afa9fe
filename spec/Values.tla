------------------------------ MODULE Values ------------------------------
(* Hash values: their text forms, byte views, serialised forms and order.

   A value of a type of n bytes is a sequence of n bytes; a text is a sequence of code points (or
   of UTF-8 bytes: they agree on everything that is accepted). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

----------------------------------------------------------------------------
(* Text forms. *)
Digit(x, upper) == IF x < 10 THEN 48 + x ELSE (IF upper THEN 55 ELSE 87) + x
HexText(b, upper) ==
    [i \in 1..(2 * Len(b)) |->
        LET x == b[(i + 1) \div 2] IN Digit(IF (i % 2) = 1 THEN x \div 16 ELSE x % 16, upper)]

DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
\* exactly the strings of 2n hexadecimal digits are accepted ...
Accepts(n, t) == Len(t) = 2 * n /\ \A i \in 1..Len(t) : DigitVal(t[i]) < 16
\* ... and denote these bytes
Denotes(t) == [i \in 1..(Len(t) \div 2) |-> 16 * DigitVal(t[2 * i - 1]) + DigitVal(t[2 * i])]

Many(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
\* text padded to a width (counted in characters); al: "l", "c" or "r"
Pad(t, w, fill, al) ==
    LET d == IF w > Len(t) THEN w - Len(t) ELSE 0
        left == IF al = "l" THEN 0 ELSE IF al = "r" THEN d ELSE d \div 2
    IN Many(fill, left) \o t \o Many(fill, d - left)
\* The digits: truncated to the precision, upper case where asked.  o: the formatting options
\* [tr, fill, al, alt, zero, w, p]; w and p are -1 when absent.
Digits(b, o) == LET h == HexText(b, o.tr = "upper") IN IF o.p >= 0 /\ o.p < Len(h) THEN SubSeq(h, 1, o.p) ELSE h
Prefix0x == <<48, 120>>
\* the text of a value under formatting options, aligned al
Formatted(b, o, al) ==
    LET pre == IF o.alt THEN Prefix0x ELSE <<>>
        d == Digits(b, o)
    IN IF o.zero THEN pre \o Many(48, o.w - Len(pre) - Len(d)) \o d
       ELSE Pad(pre \o d, o.w, o.fill, al)

\* What hmac::Hash prints today (a known finding, see KNOWN_FINDINGS.txt): '#' has no effect, an odd
\* precision shows the wrong last digit, a precision forces lower case, and a precision beyond the
\* text is taken for its length when padding.
HmacToday(b, o) ==
    LET n == Len(b)
        cut == o.p >= 0 /\ n > (o.p + 1) \div 2
        slen == IF o.p >= 0 /\ 2 * n > (o.p + 1) \div 2 THEN o.p ELSE 2 * n
        last == IF (o.p % 2) = 1 /\ n > (o.p \div 2) + 1
                THEN <<Digit(b[(o.p \div 2) + 2] % 16, o.tr = "upper")>> ELSE <<>>
        body == IF cut THEN HexText(SubSeq(b, 1, o.p \div 2), FALSE) \o last ELSE HexText(b, o.tr = "upper")
        d == IF o.w > slen THEN o.w - slen ELSE 0
        left == IF o.al \in {"l", "n"} THEN 0 ELSE IF o.al = "r" THEN d ELSE d \div 2
    IN Many(o.fill, left) \o body \o Many(o.fill, d - left)

HasAt(t, u, i) == SubSeq(t, i, i + Len(u) - 1) = u
HasText(t, u) == \E i \in 1..(Len(t) - Len(u) + 1) : HasAt(t, u, i)
RECURSIVE Decimal(_)
Decimal(k) == IF k < 10 THEN <<48 + k>> ELSE Decimal(k \div 10) \o <<48 + (k % 10)>>

\* the decimal numbers in a text, with their places
IsDec(c) == c \in 48..57
Numbers(t) ==
    {<<i, SubSeq(t, i, j)>> : <<i, j>> \in {<<i, j>> \in (1..Len(t)) \X (1..Len(t)) :
        /\ i <= j /\ \A k \in i..j : IsDec(t[k])
        /\ (i = 1 \/ ~IsDec(t[i - 1])) /\ (j = Len(t) \/ ~IsDec(t[j + 1]))}}

----------------------------------------------------------------------------
(* Byte views. *)
Splice(buf, lo, b) == [i \in 1..Len(buf) |-> IF i > lo /\ i <= lo + Len(b) THEN b[i - lo] ELSE buf[i]]
\* index forms: i (one byte), r a..b, f a.., t ..b, a .., ri a..=b, ti ..=b
InRange(n, f, a, b) ==
    CASE f = "i" -> a < n
      [] f = "r" -> a <= b /\ b <= n
      [] f = "f" -> a <= n
      [] f = "t" -> b <= n
      [] f = "a" -> TRUE
      [] f = "ri" -> a <= b + 1 /\ b < n
      [] f = "ti" -> b < n
Indexed(v, f, a, b) ==
    CASE f = "i" -> <<v[a + 1]>>
      [] f = "r" -> SubSeq(v, a + 1, b)
      [] f = "f" -> SubSeq(v, a + 1, Len(v))
      [] f = "t" -> SubSeq(v, 1, b)
      [] f = "a" -> v
      [] f = "ri" -> SubSeq(v, a + 1, b + 1)
      [] f = "ti" -> SubSeq(v, 1, b + 1)

----------------------------------------------------------------------------
(* Order and equality: lexicographic over the bytes. *)
FirstDiff(a, b) == LET s == {i \in 1..Len(a) : a[i] # b[i]} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Cmp(a, b) == LET i == FirstDiff(a, b) IN IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE 1
Sorted(l) == \A i \in 1..(Len(l) - 1) : Cmp(l[i], l[i + 1]) <= 0
StrictlySorted(l) == \A i \in 1..(Len(l) - 1) : Cmp(l[i], l[i + 1]) < 0
CountIn(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
SameBag(l, m) == Len(l) = Len(m) /\ \A i \in 1..Len(l) : CountIn(l, l[i]) = CountIn(m, l[i])

----------------------------------------------------------------------------
(* Serialised forms. *)
\* the datum a value is written as
Written(v, hr) == IF hr THEN [kind |-> "str", v |-> HexText(v, FALSE)] ELSE [kind |-> "bytes", v |-> v]
StrKinds == {"str", "bstr", "string"}
BytesKinds == {"bytes", "bbytes", "buf"}
\* data that must be read, data that must be refused; the rest (text offered as bytes by a
\* human-readable format) may be read or refused
MustRead(n, hr, kind, d) ==
    IF hr THEN kind \in StrKinds /\ Accepts(n, d) ELSE kind \in BytesKinds /\ Len(d) = n
MayRead(n, hr, kind, d) ==
    MustRead(n, hr, kind, d) \/ (hr /\ kind \in BytesKinds /\ Accepts(n, d))
ReadAs(hr, d) == IF hr THEN Denotes(d) ELSE d
\* the bytes of concrete formats
RawJson(v) == <<34>> \o HexText(v, FALSE) \o <<34>>
RawBincode(v) == <<Len(v) % 256, Len(v) \div 256, 0, 0, 0, 0, 0, 0>> \o v
RawCbor(v) == (IF Len(v) < 24 THEN <<64 + Len(v)>> ELSE IF Len(v) < 256 THEN <<88, Len(v)>> ELSE <<89, Len(v) \div 256, Len(v) % 256>>) \o v
HumanReadable(fmt) == fmt \in {"json", "jsonstr", "jsonrd", "jsonval"}
Raw(fmt, v) == IF HumanReadable(fmt) THEN RawJson(v) ELSE IF fmt \in {"bin", "binrd"} THEN RawBincode(v) ELSE RawCbor(v)
=============================================================================

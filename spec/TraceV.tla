------------------------------ MODULE TraceV ------------------------------
(* Trace specification for hash values.  A trace concerns one type of T.n bytes; slots hold values. *)
EXTENDS Values, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
\* set when the known finding about hmac::Hash formatting is listed
HmacFinding == "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "hmac-fmt"

VARIABLES tid, l, slots, err
vars == <<tid, l, slots, err>>
T == Traces[tid]
Ok == <<>>
Bad(what, want, got) == <<what, want, got>>
Want(what, want, got) == IF want = got THEN Ok ELSE Bad(what, want, got)
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE First(_)
First(cs) == IF cs = <<>> THEN Ok ELSE IF cs[1] # Ok THEN cs[1] ELSE First(Tail(cs))
\* the rest is only looked at (and only has its fields) when the outcome is the expected one
Gate(what, want, got, rest) == IF want = got THEN rest ELSE Bad(what, want, got)
Zeros == Many(0, T.n)

BuildVal(e) == IF e.rt \in {"zero", "default"} THEN Zeros ELSE e.b

\* the error text names both lengths, the expected one next to the word "expected" if that occurs
Expected == <<101, 120, 112, 101, 99, 116, 101, 100>>
TextErr(t, got, exp) ==
    LET ns == Numbers(t)
        at == {i \in 1..(Len(t) - Len(Expected) + 1) : HasAt(t, Expected, i)}
    IN IF Decimal(got) \in {x[2] : x \in ns} /\ Decimal(exp) \in {x[2] : x \in ns}
          /\ (at # {} /\ Cardinality(ns) = 2 =>
                 \E i \in at : \E x \in ns : x[1] > i /\ x[2] = Decimal(exp) /\ ~\E y \in ns : y[1] > i /\ y[1] < x[1])
       THEN Ok ELSE Bad("the error text names both lengths", <<got, exp>>, t)

SliceErr(e) ==
    IF Len(e.b) = T.n THEN Gate("slice of the right length", "ok", e.out, Want("value", e.b, e.v))
    ELSE Gate("slice of another length", "error", e.out,
         First(<<Want("expected and actual length", <<T.n, Len(e.b), T.n, Len(e.b)>>, <<e.exp, e.got, e.exp2, e.got2>>),
                 TextErr(e.txt, Len(e.b), T.n)>>))
\* the error as a value: e.n = <<got, expected>> of one, then of another
ErrErr(e) ==
    Gate("length error", "ok", e.out,
    First(<<Want("actual and expected length", <<e.n[1], e.n[2], e.n[1], e.n[2], e.n[1], e.n[2]>>, e.v),
            LET q == e.n[1] = e.n[3] /\ e.n[2] = e.n[4] IN Want("equality of errors", <<q, q, TRUE>>, e.eq),
            TextErr(e.txt, e.n[1], e.n[2])>>))

ViewsErr(e, v) ==
    First(<<Want("views", "ok", e.out), Want("LEN", T.n, e.len)>> \o
          [i \in 1..Len(e.v) |-> Want(e.v[i][1], v, e.v[i][2])])

IdxErr(e, v) ==
    IF InRange(T.n, e.f, e.a, e.b)
    THEN First(<<Want("index in range", "ok", e.out), Want("indexed bytes", Indexed(v, e.f, e.a, e.b), e.v)>>)
    ELSE Want("index out of range", "panic", e.out)

FmtErr(e, v) ==
    IF e.out # "ok" THEN Bad("formatting", "ok", e.out)
    ELSE IF e.tr = "debug" THEN (IF HasText(e.t, HexText(v, FALSE)) THEN Ok ELSE Bad("debug text contains the digits", HexText(v, FALSE), e.t))
    ELSE IF ~T.hm THEN Want("text", Formatted(v, e, IF e.al = "n" THEN "r" ELSE e.al), e.t)
    ELSE IF HmacFinding /\ e.t = HmacToday(v, e) THEN Ok
    ELSE IF e.al = "n" /\ e.t = Formatted(v, e, "r") THEN Ok
    ELSE Want("text", Formatted(v, e, IF e.al = "n" THEN "l" ELSE e.al), e.t)

ParseErr(e) ==
    IF Accepts(T.n, e.b) THEN First(<<Want("2n hexadecimal digits", "ok", e.out), Want("parsed value", Denotes(e.b), e.v)>>)
    ELSE Want("any other string", "error", e.out)

RtErr(e, v) == First(<<Want("text", HexText(v, e.tr = "upper"), e.t), Want("parsing a displayed value", "ok", e.out), Want("parsed value", v, e.v)>>)

CmpErr(e, a, b) ==
    LET c == Cmp(a, b) IN
    Gate("comparison", "ok", e.out,
    First(<<Want("equality", <<c = 0, c # 0>>, <<e.eq, e.ne>>),
            Want("order operators", <<c < 0, c <= 0, c > 0, c >= 0>>, <<e.lt, e.le, e.gt, e.ge>>),
            Want("cmp and partial_cmp", <<c, c>>, <<e.cmp, e.pcmp>>),
            Want("max and min", IF c < 0 THEN <<b, a>> ELSE <<a, b>>, <<e.max, e.min>>),
            Want("clamp", IF c <= 0 THEN a ELSE b, e.clamp),
            Want("hasher input equal", c = 0, e.heq)>>))
SortErr(e) ==
    LET in == [i \in 1..Len(e.l) |-> slots[e.l[i]]]
    IN Gate("sorting", "ok", e.out,
       First(<<IF Sorted(e.v) /\ SameBag(in, e.v) THEN Ok ELSE Bad("sorted list", in, e.v),
               IF StrictlySorted(e.bt) /\ ToSet(e.bt) = ToSet(in) THEN Ok ELSE Bad("ordered set", in, e.bt),
               Want("hash set size", Cardinality(ToSet(in)), e.hs), Want("all found again", TRUE, e.in)>>))

SerErr(e, v) == First(<<Want("serialising", "ok", e.out), Want("datum", Written(v, e.hr), [kind |-> e.kind, v |-> e.v])>>)
DeErr(e, hr) ==
    CASE e.out = "panic" -> Bad("deserialising", "value or error", "panic")
      [] e.out = "ok" /\ ~MayRead(T.n, hr, e.kind, e.b) -> Bad("must be refused", <<hr, e.kind, e.b>>, e.v)
      [] e.out = "error" /\ MustRead(T.n, hr, e.kind, e.b) -> Bad("must be read", <<hr, e.kind, e.b>>, "error")
      [] e.out = "ok" -> Want("value read", ReadAs(hr, e.b), e.v)
      [] OTHER -> Ok
RoundErr(e, v) ==
    First(<<Want("serialise and read back", "ok", e.out), Want("serialised form", Raw(e.fmt, v), e.raw)>> \o
          [i \in 1..Len(e.v) |-> Want("value read back", v, e.v[i])])

\* e.probes: <<text, does a JSON Schema validator accept it>>
NoHexDigit(t) == \A i \in 1..Len(t) : DigitVal(t[i]) = 16
ProbeErr(p) ==
    IF Accepts(T.n, p[1]) THEN Want("hexadecimal text of the right length validates", TRUE, p[2])
    ELSE IF Len(p[1]) # 2 * T.n \/ NoHexDigit(p[1]) THEN (IF p[2] THEN Bad("text must not validate", p[1], "valid") ELSE Ok)
    ELSE Ok
SchemaErr(e) ==
    Gate("schema", "ok", e.out,
    First(<<IF e.kind = "self" THEN Want("type and lengths", <<"string", 2 * T.n, 2 * T.n>>, <<e.type, e.min, e.max>>) ELSE Ok,
            Want("values other than strings validate", FALSE, e.nonstr)>> \o [i \in 1..Len(e.probes) |-> ProbeErr(e.probes[i])]))

\* families of inputs: outcomes as runs of lengths; only the one right length of digits or bytes is accepted
\* (reading text offered as raw bytes in a human-readable format may be refused)
SweepRight(e) == IF e.text THEN 2 * T.n ELSE T.n
RunErr(e, r) ==
    LET right == SweepRight(e)
        good == e.fam = "z" /\ r[1] <= right /\ right <= r[2]
    IN CASE r[3] = "skip" -> Ok
         [] r[3] = "error" /\ good /\ e.kind # "t1bytes" -> Bad("must be accepted", right, r)
         [] r[3] = "error" -> Ok
         [] r[3] = "ok" /\ good /\ r[1] = r[2] -> Ok
         [] OTHER -> Bad("outcome for inputs of these lengths", "error", r)
SweepErr(e) == First([i \in 1..Len(e.runs) |-> RunErr(e, e.runs[i])])

Init == tid \in 1..Len(Traces) /\ l = 1 /\ slots = <<>> /\ err = Ok
Effect(e) ==
    CASE e.op = "build" ->
            /\ slots' = Put(slots, e.s, BuildVal(e))
            /\ err' = First(<<Want("building a value", "ok", e.out), Want("bytes of the value", BuildVal(e), e.v)>>)
      [] e.op = "slice" -> err' = SliceErr(e) /\ UNCHANGED slots
      [] e.op = "sweep" -> err' = SweepErr(e) /\ UNCHANGED slots
      [] e.op = "err"   -> err' = ErrErr(e) /\ UNCHANGED slots
      [] e.op = "views" -> err' = ViewsErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "idx"   -> err' = IdxErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "mut"   -> err' = First(<<Want("mutable view", "ok", e.out), Want("buffer after the write", Splice(e.before, e.lo, slots[e.s]), e.after)>>) /\ UNCHANGED slots
      [] e.op = "swap"  ->
            LET a == SubSeq(e.before, e.lo + 1, e.lo + T.n)
                b == SubSeq(e.before, e.lo + T.n + 1, e.lo + 2 * T.n)
            IN err' = First(<<Want("mutable view", "ok", e.out), Want("buffer after the swap", Splice(e.before, e.lo, b \o a), e.after)>>) /\ UNCHANGED slots
      [] e.op = "fmt"   -> err' = FmtErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "parse" -> err' = ParseErr(e) /\ UNCHANGED slots
      [] e.op = "rt"    -> err' = RtErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "cmp"   -> err' = CmpErr(e, slots[e.a], slots[e.b]) /\ UNCHANGED slots
      [] e.op = "sort"  -> err' = SortErr(e) /\ UNCHANGED slots
      [] e.op = "ser"   -> err' = SerErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "de"    -> err' = DeErr(e, e.hr) /\ UNCHANGED slots
      [] e.op = "fin"   -> err' = DeErr(e, HumanReadable(e.fmt)) /\ UNCHANGED slots
      [] e.op = "round" -> err' = RoundErr(e, slots[e.s]) /\ UNCHANGED slots
      [] e.op = "schema" -> err' = SchemaErr(e) /\ UNCHANGED slots
      [] OTHER -> err' = Bad("unknown event", "known", e.op) /\ UNCHANGED slots

Step == l <= Len(T.ev) /\ err = Ok /\ l' = l + 1 /\ UNCHANGED tid /\ Effect(T.ev[l])
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Conforms == err = Ok
=============================================================================

------------------------------ MODULE TraceK ------------------------------
(* Trace specification, concrete: every event recorded from the real library (with all its
   bytes) is replayed through Chf's transition function with the real algorithms, and every
   recorded observation (byte count, midstate, digest, return value, panic) must be the one
   the specification computes. *)
EXTENDS Chf, Algo, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, st, err
vars == <<tid, l, st, err>>

Ev == Traces[tid].ev[l]
Has(r, f) == f \in DOMAIN r
Ok == <<>>
Bad(what, want, got) == <<what, want, got>>
\* first complaint of a sequence of <<condition, what, want, got>>
RECURSIVE First(_)
First(cs) == IF cs = <<>> THEN Ok ELSE IF cs[1] # Ok THEN cs[1] ELSE First(Tail(cs))
Want(what, want, got) == IF want = got THEN Ok ELSE Bad(what, want, got)

\* midstate bytes as exposed by the library (SipHash exposes none)
MidBytes(e) == IF e.alg = "siphash24" THEN <<>>
               ELSE LET m == MidOf(e) IN [i \in 1..Len(m) |-> RMidBytes(e.alg, m[i])]

ObsErr(o, slots) ==
    LET e == slots[o.s] IN
    IF o.out # "ok" THEN Bad("observation panicked", "ok", o)
    ELSE First(<<Want("byte count", Count(e), o.n),
                 IF Has(o, "mid") THEN Want("midstate", MidBytes(e), o.mid) ELSE Ok,
                 IF Has(o, "dig") THEN Want("digest", Finish(e), o.dig) ELSE Ok,
                 IF Has(o, "keys") /\ e.kind = "plain" /\ e.key # <<>> THEN Want("keys", e.key, o.keys) ELSE Ok>>)

\* the value a one-shot function must return
OneShot(op) ==
    CASE op.rt = "mid"      -> RMidBytes(op.alg, ChainFrom(op.alg, IvOf(op.alg, <<>>), TagPrefix(op.alg, op.key)))
      [] OTHER -> StdSort(op, op.d)

\* resuming from raw midstate bytes
ResBytes(op) == ResumeAs(PlainShape(op.alg), <<RMidWords(op.alg, op.mid)>>, op.n)

\* the engine a segment of a long message starts from: a fresh one, or the one whose midstate,
\* count and buffered bytes were recorded at the end of the previous segment
SegStart(op) ==
    IF op.first THEN Fresh(op)
    ELSE LET n == Sub64(op.n0, Nat64(Len(op.back)))
         IN Absorb(ResumeAs(ShapeOf(Fresh(op)), [i \in 1..Len(op.m0) |-> RMidWords(op.alg, op.m0[i])], n), op.back)
SegErr(op) ==
    LET e0 == SegStart(op)
        e1 == Absorb(e0, op.d)
    IN First(<<Want("byte count before the segment", Count(e0), op.n0),
               Want("byte count", Count(e1), op.n1),
               Want("midstate", MidBytes(e1), op.m1),
               IF Has(op, "dig") THEN Want("digest", Finish(e1), op.dig) ELSE Ok,
               IF Has(op, "digs") THEN LET f == Finish(e1) IN First([i \in 1..Len(op.digs) |-> Want(<<"digest by routes", op.digs[i].rt>>, f, op.digs[i].dig)]) ELSE Ok>>)
\* the end of a really absorbed long message: count exact, digest right for the midstate shown
\* (SipHash shows no midstate bytes: its count only)
TotalErr(op) ==
    First(<<Want("byte count of a long message", Add64(op.total, Count(Fresh(op))), op.n1),
            IF op.alg = "siphash24" THEN Ok ELSE SegErr(op)>>)
OnesErr(op) ==
    LET want == OneShot([op EXCEPT !.op = "one"] @@ [rt |-> "all"])
    IN First([i \in 1..Len(op.digs) |->
                IF op.digs[i].out # "ok" THEN Bad("unexpected panic", "ok", op.digs[i].rt)
                ELSE Want(<<"digest by route", op.digs[i].rt>>, want, op.digs[i].dig)])

OutErr(op) ==
    LET p == Panics(st, op) IN
    CASE op.out = "panic" /\ ~p -> Bad("unexpected panic", "ok", op.op)
      [] op.out \notin {"ok", "panic"} -> Bad("unexpected result", "ok", op)
      [] op.out = "ok" /\ p -> Bad(IF op.op = "new" THEN "engine with too large blocks accepted" ELSE "misaligned resume accepted", "panic", op)
      [] OTHER -> Ok

\* complaint about an event, given the state after it
EvErr(op, s2) ==
    CASE op.op = "obs" -> First([i \in 1..Len(op.o) |-> ObsErr(op.o[i], s2.slots)])
      [] op.op = "in"  -> Want("bytes accepted", RLAdd(Zero64, Len(op.d)), op.ret)
      [] op.op = "fin" -> Want("digest", Finish(st.slots[op.s]), op.dig)
      [] op.op = "one" -> Want("digest", OneShot(op), op.dig)
      [] op.op = "ones" -> OnesErr(op)
      [] op.op = "seg" -> SegErr(op)
      [] op.op = "total" -> TotalErr(op)
      [] op.op = "same" -> Want("one piece or many", op.a, op.b)
      [] op.op = "res" -> IF op.same \/ Panics(st, op) THEN Ok ELSE Bad("midstate of resumed engine", "same", "different")
      [] OTHER -> Ok

Known == {"new", "in", "clone", "drop", "cap", "res", "resb", "fin", "one", "ones", "seg", "total", "same", "obs"}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = EmptyState
        /\ err = Ok

Step ==
    /\ l <= Len(Traces[tid].ev)
    /\ err = Ok
    /\ l' = l + 1
    /\ UNCHANGED tid
    /\ LET op == Ev
           oe == IF op.op \in Known THEN OutErr(op) ELSE Bad("unknown event", "known", op.op)
       IN IF oe # Ok THEN err' = oe /\ UNCHANGED st
          ELSE LET s2 == IF op.op = "resb" /\ ~Panics(st, op)
                         THEN [st EXCEPT !.slots = Put(@, op.s, ResBytes(op))] ELSE Apply(st, op)
               IN /\ st' = s2
                  /\ err' = EvErr(op, s2)
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
Next == Step \/ Done

\* The recorded execution is a behaviour of the specification.
Conforms == err = Ok
=============================================================================

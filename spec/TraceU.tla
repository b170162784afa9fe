------------------------------ MODULE TraceU ------------------------------
(* Trace specification, content level: digests and midstates are opaque, but the same sort and
   message must always give the same digest, midstate and byte count, however the message was
   cut into pieces, whichever route it took, whatever happened to other engines, and whether or
   not the engine was cloned or resumed on the way.

   Each trace carries the interpretation of the uninterpreted functions as a table (ref: digest
   of a message in one piece by one fresh engine; mref: midstate likewise); an observation names
   the table row that must explain it. *)
EXTENDS Content, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, slots, regs, err
vars == <<tid, l, slots, regs, err>>
T == Traces[tid]
Has(r, f) == f \in DOMAIN r
Ok == <<>>
Bad(what, want, got) == <<what, want, got>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
RECURSIVE First(_)
First(cs) == IF cs = <<>> THEN Ok ELSE IF cs[1] # Ok THEN cs[1] ELSE First(Tail(cs))
Want(what, want, got) == IF want = got THEN Ok ELSE Bad(what, want, got)

\* row r of the digest table explains digest d of message segs under sort
DigErr(sort, segs, r, d) ==
    LET row == T.ref[r] IN
    IF row.segs # segs \/ row.sort # sort THEN Bad("table row is for another message", <<sort, segs>>, row)
    ELSE Want("digest differs from the one-piece digest of the same message", row.dig, d)
MidErr(c, r, m) ==
    LET row == T.mref[r] IN
    IF row.segs # WholeBlocks(c) \/ row.sort # c.sort THEN Bad("table row is for another message", <<c.sort, WholeBlocks(c)>>, row)
    ELSE Want("midstate differs from that of the same whole blocks", row.mid, m)

ObsErr(o) ==
    LET c == slots[o.s] IN
    IF o.out # "ok" THEN Bad("observation panicked", "ok", o)
    ELSE First(<<Want("byte count", CountC(c), o.n),
                 IF Has(o, "dig") THEN DigErr(c.sort, c.segs, o.rid, o.dig) ELSE Ok,
                 IF Has(o, "mid") THEN MidErr(c, o.mrid, o.mid) ELSE Ok>>)

\* block hashes refuse misaligned counts; SipHash (8-byte words) takes any
MustRefuse(op) == op.op = "res" /\ regs[op.r].blk > 8 /\ Mod64(op.n, regs[op.r].blk) # 0
OutErr(op) ==
    CASE op.out = "panic" /\ ~MustRefuse(op) -> Bad("unexpected panic", "ok", op.op)
      [] op.out \notin {"ok", "panic"} -> Bad("unexpected result", "ok", op)
      [] op.out = "ok" /\ MustRefuse(op) -> Bad("misaligned resume accepted", "panic", op.n)
      [] OTHER -> Ok

\* pieces of the first bytes of one stream: f = <<pieces, count, digest id, table row>>
SumOf(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
FeedErr(op, f) ==
    LET total == SumOf(f[1])
        segs == IF total = 0 THEN <<>> ELSE << <<op.seed, Zero64, Nat64(total)>> >>
    IN First(<<Want("byte count", op.pre + total, f[2]), DigErr(op.sort, segs, f[4], T.digs[f[3]])>>)
FeedsErr(op) == FoldLeft(LAMBDA e, f : IF e # Ok THEN e ELSE LET x == FeedErr(op, f) IN IF x = Ok THEN Ok ELSE x \o <<f[1]>>, Ok, op.f)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ slots = <<>> /\ regs = <<>> /\ err = Ok

Effect(op) ==
    CASE op.op = "new" ->
            /\ slots' = Put(slots, op.s, NewC(op.sort, op.pre, op.blk))
            /\ err' = Ok /\ UNCHANGED regs
      [] op.op = "in" ->
            /\ slots' = IF op.d = <<>> THEN slots ELSE [slots EXCEPT ![op.s].segs = Join(@, op.d)]
            /\ err' = Want("bytes accepted", IF op.d = <<>> THEN Zero64 ELSE op.d[3], op.ret)
            /\ UNCHANGED regs
      [] op.op = "clone" ->
            /\ slots' = Put(slots, op.d, slots[op.s]) /\ err' = Ok /\ UNCHANGED regs
      [] op.op = "drop" ->
            /\ slots' = Del(slots, op.s) /\ err' = Ok /\ UNCHANGED regs
      [] op.op = "cap" ->
            /\ regs' = Put(regs, op.r, slots[op.s]) /\ err' = Ok /\ UNCHANGED slots
      [] op.op = "res" ->
            IF MustRefuse(op) THEN err' = Ok /\ UNCHANGED <<slots, regs>>
            ELSE LET c == regs[op.r] IN
                 /\ slots' = Put(slots, op.s, [c EXCEPT !.segs = WholeBlocks(c)])
                 /\ err' = First(<<Want("trace resumes at the captured count", AlignedC(c), op.n),
                                   IF op.same THEN Ok ELSE Bad("midstate of resumed engine", "same", "different")>>)
                 /\ UNCHANGED regs
      [] op.op = "fin" ->
            /\ slots' = Del(slots, op.s)
            /\ err' = DigErr(slots[op.s].sort, slots[op.s].segs, op.rid, op.dig)
            /\ UNCHANGED regs
      [] op.op = "one" ->
            /\ err' = DigErr(op.sort, JoinAll(<<>>, op.parts), op.rid, op.dig)
            /\ UNCHANGED <<slots, regs>>
      [] op.op = "feeds" ->
            /\ err' = FeedsErr(op)
            /\ UNCHANGED <<slots, regs>>
      [] op.op = "obs" ->
            /\ err' = First([i \in 1..Len(op.o) |-> ObsErr(op.o[i])])
            /\ UNCHANGED <<slots, regs>>
      [] OTHER -> err' = Bad("unknown event", "known", op.op) /\ UNCHANGED <<slots, regs>>

Step ==
    /\ l <= Len(T.ev)
    /\ err = Ok
    /\ l' = l + 1
    /\ UNCHANGED tid
    /\ LET oe == OutErr(T.ev[l]) IN
       IF oe # Ok THEN err' = oe /\ UNCHANGED <<slots, regs>> ELSE Effect(T.ev[l])
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Conforms == err = Ok
=============================================================================

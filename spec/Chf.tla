------------------------------- MODULE Chf -------------------------------
(* The library as a state machine: a caller holds any number of engines (slots) and captured
   midstates (registers) and performs operations on them.

   An operation is a record; Apply is the transition function, Panics says which operations
   the library must refuse by panicking, Result is what an operation returns.  MC_Chf explores
   all operation sequences of a small instance; TraceK replays recorded operations of the real
   library through the very same operators. *)
EXTENDS Engine

None == [kind |-> "none"]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE None
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* st: [slots |-> engine per slot, regs |-> captured midstate per register]
EmptyState == [slots |-> <<>>, regs |-> <<>>]

\* the engine an operation creates.  op.sort: "plain", "hmac" (over a plain hash), "tag" (tagged
\* SHA-256), "pre" (a user's tag: an engine that has absorbed op.key) or "hmacx" (HMAC over the
\* sort op.base)
TagPrefix(a, tag) == LET d == StdDigest(a, <<>>, tag) IN d \o d
RECURSIVE Fresh(_), StdSort(_, _)
Fresh(op) == CASE op.sort = "plain" -> NewEngine(op.alg, op.k)
               [] op.sort = "hmac"  -> NewHmac(op.alg, op.key)
               [] op.sort = "tag"   -> AbsorbPlain(NewEngine(op.alg, <<>>), TagPrefix(op.alg, op.key))
               [] op.sort = "pre"   -> AbsorbPlain(NewEngine(op.alg, <<>>), op.key)
               [] op.sort = "hmacx" -> NewHmacOn(Fresh(op.base), HmacBlockOf(op.alg), op.key)
\* the digest the standards define for a sort and a message
StdSort(op, m) ==
    CASE op.sort = "plain" -> StdDigest(op.alg, op.k, m)
      [] op.sort = "hmac"  -> StdHmac(op.alg, op.key, m)
      [] op.sort = "tag"   -> StdDigest(op.alg, <<>>, TagPrefix(op.alg, op.key) \o m)
      [] op.sort = "pre"   -> StdDigest(op.alg, <<>>, op.key \o m)
      [] op.sort = "hmacx" -> LET H(x) == StdSort(op.base, x) IN StdMac(H, HmacBlockOf(op.alg), op.key, m)

Captured(e) == [alg |-> e.alg, shape |-> ShapeOf(e), mid |-> MidOf(e), cnt |-> Count(e)]

\* SipHash buffers outside its captured state and accepts any count; the block hashes demand a
\* whole number of blocks
RefusesCount(a, n) == LenLenOf(a) # 0 /\ ~CanResume(a, n)

\* HMAC takes engines of up to 128-byte blocks and refuses others
RefusesHmac(op) == op.sort \in {"hmac", "hmacx"} /\ HmacBlockOf(op.alg) > 128

Panics(st, op) ==
    CASE op.op = "new"  -> RefusesHmac(op)
      [] op.op = "res"  -> RefusesCount(st.regs[op.r].alg, op.n)
      [] op.op = "resb" -> RefusesCount(op.alg, op.n)
      [] OTHER -> FALSE

Apply(st, op) ==
    IF Panics(st, op) THEN st
    ELSE CASE op.op = "new"   -> [st EXCEPT !.slots = Put(@, op.s, Fresh(op))]
           [] op.op = "in"    -> [st EXCEPT !.slots[op.s] = Absorb(@, op.d)]
           [] op.op = "clone" -> [st EXCEPT !.slots = Put(@, op.d, st.slots[op.s])]
           [] op.op = "drop"  -> [st EXCEPT !.slots = Del(@, op.s)]
           [] op.op = "cap"   -> [st EXCEPT !.regs = Put(@, op.r, Captured(st.slots[op.s]))]
           [] op.op = "res"   -> LET c == st.regs[op.r]
                                 IN [st EXCEPT !.slots = Put(@, op.s, ResumeAs(c.shape, c.mid, op.n))]
           [] op.op = "fin"   -> [st EXCEPT !.slots = Del(@, op.s)]
           [] OTHER -> st

\* slots an operation names: everything else must be left alone
Touches(op) == CASE op.op \in {"new", "in", "drop", "res", "resb", "fin"} -> {op.s}
                 [] op.op = "clone" -> {op.d}
                 [] OTHER -> {}
Frame(st, op, st2) ==
    \A x \in (DOMAIN st.slots \cup DOMAIN st2.slots) \ Touches(op) : At(st.slots, x) = At(st2.slots, x)
=============================================================================

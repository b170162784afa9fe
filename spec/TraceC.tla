------------------------------ MODULE TraceC ------------------------------
(* Trace specification of the fixed-time comparison.  Each recorded comparison names the length,
   where and by which bits the second slice differs from the first, the result and the hash of
   the instruction path.  The state remembers the path seen for each (length, alignment, result):
   any later comparison of the same length and result must take the same path. *)
EXTENDS CtEq, FiniteSets, Json, IOUtils, TLC, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, seen, err
vars == <<tid, l, seen, err>>

Ok == <<>>
Bad(what, want, got) == <<what, want, got>>
Differ(op) == \E i \in 1..Len(op.diffs) : op.diffs[i][2] # 0
KeyOf(op) == <<op.n, op.al, op.res>>
EvErr(op) ==
    CASE op.op = "uneq" -> IF op.out = (IF op.n = op.m THEN "ok" ELSE "panic") THEN Ok ELSE Bad("slices of different lengths", "panic", op)
      [] op.out # "ok" -> Bad("unexpected panic", "ok", op)
      [] op.op = "far" -> IF op.outs = <<"panic", "panic">> THEN Ok ELSE Bad("lengths that differ by a power of two", "panic", op)
      [] op.op = "row" -> IF op.eq = <<op.a>> THEN Ok ELSE Bad("bytes equal to a byte", <<op.a>>, op.eq)
      [] op.op = "sweep" -> IF op.equal = <<>> /\ op.same THEN Ok ELSE Bad("one flipped bit called equal, or equal slices called different", "neither", op)
      [] op.op = "cmp" /\ op.res # ~Differ(op) -> Bad("result", ~Differ(op), op)
      [] op.op = "cmp" /\ ~op.intact -> Bad("arguments modified", "unchanged", op)
      [] op.op = "cmp" /\ KeyOf(op) \in DOMAIN seen /\ seen[KeyOf(op)] # op.path ->
            Bad("instruction path depends on the contents", seen[KeyOf(op)], op)
      [] op.op = "cmp" -> Ok
      [] OTHER -> Bad("unknown event", "known", op.op)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ seen = <<>> /\ err = Ok
Step == /\ l <= Len(Traces[tid].ev)
        /\ err = Ok
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ LET op == Traces[tid].ev[l] IN
           /\ err' = EvErr(op)
           /\ seen' = IF op.op = "cmp" /\ op.out = "ok" THEN (KeyOf(op) :> op.path) @@ seen ELSE seen
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
Next == Step \/ Done
Conforms == err = Ok
=============================================================================

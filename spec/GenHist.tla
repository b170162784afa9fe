----------------------------- MODULE GenHist -----------------------------
(* Generator of caller histories: the operation alphabet of Chf.tla over abstract engines (which
   slots are live, which registers hold a capture), recorded as a sequence of operations.  Every
   reachable state of length Depth prints one history; the check replays the histories on the
   real library and validates the recorded traces against TraceU / TraceK.

   With exhaustive search this enumerates all histories up to Depth; with -simulate it samples
   long ones. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NSlots, NRegs, Depth, Pieces, Kinds, Dense
Slots == 1..NSlots
Regs == 1..NRegs

VARIABLES live, regs, hist
vars == <<live, regs, hist>>

Add(o) == hist' = Append(hist, o)
Init == live = {1} /\ regs = {} /\ hist \in { << [op |-> "new", s |-> 1, q |-> k] >> : k \in Kinds }

New(s, k) == Add([op |-> "new", s |-> s, q |-> k]) /\ live' = live \cup {s} /\ UNCHANGED regs
In(s, p) == s \in live /\ Add([op |-> "in", s |-> s, p |-> p]) /\ UNCHANGED <<live, regs>>
Clone(s, d) == s \in live /\ s # d /\ Add([op |-> "clone", s |-> s, d |-> d]) /\ live' = live \cup {d} /\ UNCHANGED regs
Drop(s) == s \in live /\ Cardinality(live) > 1 /\ Add([op |-> "drop", s |-> s]) /\ live' = live \ {s} /\ UNCHANGED regs
Cap(s, r) == s \in live /\ Add([op |-> "cap", s |-> s, r |-> r]) /\ regs' = regs \cup {r} /\ UNCHANGED live
Res(s, r) == r \in regs /\ Add([op |-> "res", s |-> s, r |-> r]) /\ live' = live \cup {s} /\ UNCHANGED regs
Fin(s) == s \in live /\ Cardinality(live) > 1 /\ Add([op |-> "fin", s |-> s]) /\ live' = live \ {s} /\ UNCHANGED regs
Obs == hist[Len(hist)].op # "obs" /\ Add([op |-> "obs"]) /\ UNCHANGED <<live, regs>>

Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Slots, k \in Kinds : New(s, k)
           \/ \E s \in Slots, p \in Pieces : In(s, p)
           \/ \E s, d \in Slots : Clone(s, d)
           \/ \E s \in Slots : Drop(s) \/ Fin(s)
           \/ \E s \in Slots, r \in Regs : Cap(s, r) \/ Res(s, r)
           \/ Obs
\* a history is worth replaying only if its last step is not an observation (the replay ends with one)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================

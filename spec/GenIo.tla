------------------------------- MODULE GenIo -------------------------------
(* Generator of sequences of feeding operations on one engine: every route with every size class,
   in any order.  Prints one history per state of length Depth. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Routes, Pieces, Depth
VARIABLES hist
Flushes == {"fl", "sfl"}
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E r \in Routes \ Flushes, p \in Pieces : hist' = Append(hist, [op |-> "in", rt |-> r, p |-> p])
           \/ \E r \in Routes \cap Flushes : hist' = Append(hist, [op |-> "in", rt |-> r, p |-> 0])
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================

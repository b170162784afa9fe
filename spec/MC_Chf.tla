------------------------------ MODULE MC_Chf ------------------------------
(* Exhaustive model of the library's state machine (Chf.tla) over the symbolic family: all
   sequences of create / absorb / clone / drop / capture / resume / finalise on a few slots.

   Checked: the engine machine implements the content-level machine (an engine is exactly its
   absorbed message), i.e. for every reachable state and every live engine
     - its byte count, midstate and digest are the standard's monolithic functions of the
       message it absorbed, whatever the pieces, clones and resumes on the way,
     - the byte-copying loop and the stepwise padding of the code equal the one-step versions,
     - an operation changes no slot it does not name,
     - misaligned resumption is refused and leaves everything unchanged. *)
EXTENDS Chf, Toy, TLC, FiniteSets

CONSTANTS NSlots, NRegs, MaxMsg, MaxPiece, MaxSegs, Sorts

Slots == 1..NSlots
Regs == 1..NRegs

VARIABLES st, ghost, gregs
vars == <<st, ghost, gregs>>

\* content-level descriptions of engines
Sym(s, i) == <<1, s, i>>
Piece(s, n, k) == [i \in 1..k |-> Sym(s, n + i)]
SortOp(q) == CASE q = "plain"  -> [sort |-> "plain", alg |-> "a", k |-> <<>>, key |-> <<>>]
               [] q = "word"   -> [sort |-> "plain", alg |-> "w", k |-> <<>>, key |-> <<>>]
               [] q = "tag"    -> [sort |-> "tag", alg |-> "a", k |-> <<>>, key |-> << <<1, 9, 1>> >>]
               [] q = "hmac0"  -> [sort |-> "hmac", alg |-> "a", k |-> <<>>, key |-> <<>>]
               [] q = "hmac2"  -> [sort |-> "hmac", alg |-> "a", k |-> <<>>, key |-> [i \in 1..2 |-> <<1, 8, i>>]]
               [] q = "hmac5"  -> [sort |-> "hmac", alg |-> "a", k |-> <<>>, key |-> [i \in 1..5 |-> <<1, 8, i>>]]
               [] q = "hmacw"  -> [sort |-> "hmac", alg |-> "w", k |-> <<>>, key |-> [i \in 1..2 |-> <<1, 8, i>>]]
               [] q = "hmact"  -> [sort |-> "hmacx", alg |-> "a", k |-> <<>>, key |-> [i \in 1..2 |-> <<1, 8, i>>],
                                   base |-> [sort |-> "tag", alg |-> "a", k |-> <<>>, key |-> << <<1, 9, 1>> >>]]
               [] q = "hmach"  -> [sort |-> "hmacx", alg |-> "a", k |-> <<>>, key |-> [i \in 1..5 |-> <<1, 8, i>>],
                                   base |-> [sort |-> "hmac", alg |-> "a", k |-> <<>>, key |-> <<>>]]
Pre(q) == LET o == SortOp(q) IN CASE o.sort = "plain" -> 0 [] o.sort = "hmacx" -> 2 * ToyBlock [] OTHER -> ToyBlock
NSegs(m) == Cardinality({i \in 2..Len(m) : m[i][2] # m[i - 1][2]})

Init == st = EmptyState /\ ghost = <<>> /\ gregs = <<>>

Do(op) == /\ st' = Apply(st, op)
          /\ Assert(Frame(st, op, st'), <<"frame", op>>)

New(s, q) == LET o == SortOp(q) IN
    /\ Do(o @@ [op |-> "new", s |-> s])
    /\ ghost' = Put(ghost, s, [q |-> q, msg |-> <<>>])
    /\ UNCHANGED gregs
Input(s, k) ==
    /\ s \in DOMAIN st.slots
    /\ Len(ghost[s].msg) + k <= MaxMsg
    /\ LET p == Piece(s, Len(ghost[s].msg), k) IN
       /\ NSegs(ghost[s].msg \o p) < MaxSegs
       /\ Do([op |-> "in", s |-> s, d |-> p])
       /\ ghost' = [ghost EXCEPT ![s].msg = @ \o p]
    /\ UNCHANGED gregs
Clone(s, d) ==
    /\ s \in DOMAIN st.slots /\ s # d
    /\ Do([op |-> "clone", s |-> s, d |-> d])
    /\ ghost' = Put(ghost, d, ghost[s])
    /\ UNCHANGED gregs
Drop(s) ==
    /\ s \in DOMAIN st.slots
    /\ Do([op |-> "drop", s |-> s])
    /\ ghost' = Del(ghost, s)
    /\ UNCHANGED gregs
Capture(s, r) ==
    /\ s \in DOMAIN st.slots
    /\ Do([op |-> "cap", s |-> s, r |-> r])
    /\ gregs' = Put(gregs, r, ghost[s])
    /\ UNCHANGED ghost
\* resume at the number of bytes in whole blocks
ResumeAt(s, r) ==
    /\ r \in DOMAIN gregs
    /\ LET g == gregs[r]
           B == BlockOf(SortOp(g.q).alg)
           n == ((Len(g.msg) + Pre(g.q)) \div B) * B
       IN /\ Do([op |-> "res", s |-> s, r |-> r, n |-> n])
          /\ ghost' = Put(ghost, s, [q |-> g.q, msg |-> SubSeq(g.msg, 1, n - Pre(g.q))])
    /\ UNCHANGED gregs
ResumeBad(s, r, n) ==
    /\ r \in DOMAIN gregs
    /\ LET op == [op |-> "res", s |-> s, r |-> r, n |-> n] IN
       /\ Panics(st, op)
       /\ Assert(Apply(st, op) = st, "refused resume changed the state")
    /\ UNCHANGED vars

Next == \/ \E s \in Slots, q \in Sorts : New(s, q)
        \/ \E s \in Slots, k \in 0..MaxPiece : Input(s, k)
        \/ \E s, d \in Slots : Clone(s, d)
        \/ \E s \in Slots : Drop(s)
        \/ \E s \in Slots, r \in Regs : Capture(s, r) \/ ResumeAt(s, r)
        \/ \E s \in Slots, r \in Regs, n \in 0..(2 * ToyBlock) : ResumeBad(s, r, n)

----------------------------------------------------------------------------
\* the standard's view of a content
StdOf(g) == StdSort(SortOp(g.q), g.msg)
\* the chaining values over the bytes in front of the message, and the message
RECURSIVE MidSort(_, _)
MidSort(o, m) ==
    CASE o.sort = "plain" -> <<ChainFrom(o.alg, IvOf(o.alg, o.k), m)>>
      [] o.sort = "tag"   -> <<ChainFrom(o.alg, IvOf(o.alg, <<>>), TagPrefix(o.alg, o.key) \o m)>>
      [] OTHER -> LET base == IF o.sort = "hmacx" THEN o.base ELSE [sort |-> "plain", alg |-> o.alg, k |-> <<>>, key |-> <<>>]
                      H(x) == StdSort(base, x)
                      k0 == MacKey0(H, HmacBlockOf(o.alg), o.key)
                  IN MidSort(base, MapI(k0) \o m) \o MidSort(base, MapO(k0))
StdMid(g) == MidSort(SortOp(g.q), g.msg)

Tracked == DOMAIN st.slots = DOMAIN ghost
CountExact == \A s \in DOMAIN st.slots : Count(st.slots[s]) = Pre(ghost[s].q) + Len(ghost[s].msg)
DigestIsStandard == \A s \in DOMAIN st.slots : Finish(st.slots[s]) = StdOf(ghost[s])
MidstateIsStandard == \A s \in DOMAIN st.slots : MidOf(st.slots[s]) = StdMid(ghost[s])
SameContentSameEngine ==
    \A s, t \in DOMAIN st.slots : ghost[s] = ghost[t] => /\ Finish(st.slots[s]) = Finish(st.slots[t])
                                                          /\ MidOf(st.slots[s]) = MidOf(st.slots[t])
\* and nothing else: the symbolic family is collision free, so distinct contents are told apart
DistinctContentDistinctDigest ==
    \A s, t \in DOMAIN st.slots : ghost[s] # ghost[t] => Finish(st.slots[s]) # Finish(st.slots[t])
RECURSIVE PlainsOf(_)
PlainsOf(e) == IF e.kind = "hmac" THEN PlainsOf(e.i) \cup PlainsOf(e.o) ELSE {e}
Plains == UNION {PlainsOf(st.slots[s]) : s \in DOMAIN st.slots}
LoopIsOneStep ==
    \A e \in Plains : /\ \A k \in 0..(MaxPiece + ToyBlock) : LET p == Piece(7, 0, k) IN AbsorbLoop(e, p) = AbsorbPlain(e, p)
                      /\ FinishLoop(e) = FinishPlain(e)
BufferBounded == \A e \in Plains : /\ Len(e.buf) < BlockOf(e.alg)
                                   /\ e.len % BlockOf(e.alg) = Len(e.buf)
=============================================================================

------------------------------- MODULE MC_Io -------------------------------
(* Engines as writers.  A writer takes some prefix of a buffer and says how long it was; the
   callers' loops (write-all, copying a reader that delivers arbitrary chunks) are built on that.
   The library's writers take everything (Cap = MaxMsg + 1); with a smaller Cap (negative control)
   a plain write loses bytes, with Cap = 0 the loops fail.  A vectored write of several slices may
   take any prefix that covers at least the first non-empty slice (VecAll); a writer that may take
   nothing of it, say because a slice is empty (VecAll = FALSE, negative control), makes the
   caller's loop fail.

   Checked for all interleavings of absorb, write, write-all, flush and copy on one engine of
   each sort: every write reports the whole buffer, no operation fails, whenever no loop is under
   way the engine is exactly the one that absorbed everything handed over, and loops end. *)
EXTENDS Chf, Toy, TLC

CONSTANTS MaxMsg, MaxBuf, Cap, VecAll, Sorts

VARIABLES e, msg, todo, cut, src, res, sort
\* e: engine; msg: bytes handed over; todo: rest of the running write-all; src: rest of the reader
\* being copied (<<>> when none); res: last result; cut: length of the first non-empty slice of a
\* vectored write under way (0: todo is one buffer)
vars == <<e, msg, todo, cut, src, res, sort>>

SortOp(q) == CASE q = "plain" -> [sort |-> "plain", alg |-> "a", k |-> <<>>, key |-> <<>>]
               [] q = "word"  -> [sort |-> "plain", alg |-> "w", k |-> <<>>, key |-> <<>>]
               [] q = "hmac"  -> [sort |-> "hmac", alg |-> "a", k |-> <<>>, key |-> <<<<1, 8, 1>>>>]
               [] q = "tag"   -> [sort |-> "tag", alg |-> "a", k |-> <<>>, key |-> <<<<1, 9, 1>>>>]
Sym(i) == <<1, 1, i>>
Next_(k) == [i \in 1..k |-> Sym(Len(msg) + i)]
Accepts(n) == Min2(n, Cap)
DoWrite(buf) == [e |-> Absorb(e, SubSeq(buf, 1, Accepts(Len(buf)))), ret |-> Accepts(Len(buf))]
Idle == todo = <<>> /\ src = <<>> /\ res.out = "ok"
Done(k, n) == res' = [out |-> "ok", ret |-> k, want |-> n]

Init == /\ sort \in Sorts /\ e = Fresh(SortOp(sort)) /\ msg = <<>> /\ todo = <<>> /\ cut = 0 /\ src = <<>>
        /\ res = [out |-> "ok", ret |-> 0, want |-> 0]
Input == \E k \in 0..MaxBuf : /\ Idle /\ Len(msg) + k <= MaxMsg
                              /\ e' = Absorb(e, Next_(k)) /\ msg' = msg \o Next_(k) /\ Done(k, k) /\ UNCHANGED <<todo, cut, src, sort>>
Write == \E k \in 0..MaxBuf : /\ Idle /\ Len(msg) + k <= MaxMsg
                              /\ LET r == DoWrite(Next_(k)) IN e' = r.e /\ Done(r.ret, k)
                              /\ msg' = msg \o Next_(k) /\ UNCHANGED <<todo, cut, src, sort>>
Flush == Idle /\ Done(0, 0) /\ UNCHANGED <<e, msg, todo, cut, src, sort>>
StartAll == \E k \in 1..MaxBuf : /\ Idle /\ Len(msg) + k <= MaxMsg
                                 /\ todo' = Next_(k) /\ msg' = msg \o Next_(k) /\ UNCHANGED <<e, cut, src, res, sort>>
StartVec == \E k \in 1..MaxBuf : /\ Idle /\ Len(msg) + k <= MaxMsg
                                 /\ todo' = Next_(k) /\ msg' = msg \o Next_(k) /\ cut' \in 1..k /\ UNCHANGED <<e, src, res, sort>>
StartCopy == \E k \in 1..MaxBuf : /\ Idle /\ Len(msg) + k <= MaxMsg
                                  /\ src' = Next_(k) /\ msg' = msg \o Next_(k) /\ UNCHANGED <<e, todo, cut, res, sort>>
Fetch == /\ src # <<>> /\ todo = <<>> /\ res.out = "ok"
         /\ \E k \in 1..Len(src) : todo' = SubSeq(src, 1, k) /\ src' = SubSeq(src, k + 1, Len(src))
         /\ UNCHANGED <<e, msg, cut, res, sort>>
VecLoop ==
    /\ todo # <<>> /\ cut > 0 /\ res.out = "ok"
    /\ \E n \in (IF VecAll THEN cut ELSE 0)..Len(todo) :
          IF n = 0 THEN res' = [out |-> "error", ret |-> 0, want |-> cut] /\ UNCHANGED <<e, todo, cut>>
          ELSE /\ e' = Absorb(e, SubSeq(todo, 1, n)) /\ todo' = SubSeq(todo, n + 1, Len(todo)) /\ Done(n, n)
               /\ cut' \in (IF n = Len(todo) THEN {0} ELSE 1..(Len(todo) - n))
    /\ UNCHANGED <<msg, src, sort>>
Loop == /\ todo # <<>> /\ cut = 0 /\ res.out = "ok"
        /\ LET r == DoWrite(todo) IN
           IF r.ret = 0 THEN res' = [out |-> "error", ret |-> 0, want |-> Len(todo)] /\ UNCHANGED <<e, todo>>
           ELSE e' = r.e /\ todo' = SubSeq(todo, r.ret + 1, Len(todo)) /\ Done(r.ret, Len(todo))
        /\ UNCHANGED <<msg, cut, src, sort>>
Work == Fetch \/ Loop \/ VecLoop
Next == Input \/ Write \/ Flush \/ StartAll \/ StartVec \/ StartCopy \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

TakesEverything == res.ret = res.want
NeverFails == res.out = "ok"
EngineIsContent == Idle => Finish(e) = StdSort(SortOp(sort), msg)
LoopsEnd == (todo # <<>> \/ src # <<>>) ~> (todo = <<>> /\ src = <<>>)
=============================================================================

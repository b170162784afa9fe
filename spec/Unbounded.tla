----------------------------- MODULE Unbounded -----------------------------
(* The index arithmetic of the engines over unbounded integers: messages, pieces and histories
   of every length.  The other models enumerate small ones; here Apalache proves by induction
   (initial states satisfy the invariant, every step from any state satisfying it preserves it)
   that the input loops of the block engines and of SipHash
     - read only inside the piece and write only inside the buffer,
     - compress exactly the complete blocks (words) of the message, in order and once,
     - keep exactly the rest buffered,
   and that the stepwise padding and the const evaluator's chunk count are the standard's for
   every message length.  Bytes are identified by their offset in the message. *)
EXTENDS Integers

CONSTANTS
    \* block size in bytes
    \* @type: Int;
    B,
    \* size of the length field
    \* @type: Int;
    L,
    \* negative control: "", "gap", "over", "pad", "const"
    \* @type: Str;
    Ctl

C64 == B = 64 /\ L = 8 /\ Ctl = ""
C128 == B = 128 /\ L = 16 /\ Ctl = ""
CGap == B = 64 /\ L = 8 /\ Ctl = "gap"
COver == B = 64 /\ L = 8 /\ Ctl = "over"
CPad == B = 64 /\ L = 8 /\ Ctl = "pad"
CConst == B = 64 /\ L = 8 /\ Ctl = "const"

VARIABLES
    \* bytes absorbed so far (the engine's length field)
    \* @type: Int;
    len,
    \* blocks (words) compressed so far
    \* @type: Int;
    done,
    \* bytes buffered
    \* @type: Int;
    fill,
    \* the piece being absorbed: its offset in the message, its size and how much of it is consumed
    \* @type: Int;
    off,
    \* @type: Int;
    size,
    \* @type: Int;
    pos,
    \* FALSE once a read left the piece, a write left the buffer, or a block was compressed that
    \* is not the next one of the message
    \* @type: Bool;
    ok,
    \* SipHash: how many bytes of the piece completed the tail word
    \* @type: Int;
    needed

Min2(a, b) == IF a < b THEN a ELSE b

----------------------------------------------------------------------------
(* Block engines: while !inp.is_empty() { ... } *)
BInit == len = 0 /\ done = 0 /\ fill = 0 /\ off = 0 /\ size = 0 /\ pos = 0 /\ ok = TRUE /\ needed = 0
BPiece == /\ pos = size
          /\ off' = off + size /\ pos' = 0
          /\ \E k \in Nat : size' = k
          /\ UNCHANGED <<len, done, fill, ok, needed>>
BStep == /\ pos < size
         /\ LET idx == len % B
                wr == IF Ctl = "gap" THEN Min2(B - idx, size) ELSE Min2(B - idx, size - pos)
                full == (len + wr) % B = 0
            IN /\ ok' = (/\ ok
                         /\ idx + wr <= B                  \* the buffer
                         /\ pos + wr <= size               \* the piece
                         /\ idx = fill                     \* bytes lie where the previous ones end
                         /\ off + pos = B * done + fill    \* and are the message's next ones
                         /\ (full => idx + wr = B))        \* a compressed block is a full one
               /\ len' = len + wr
               /\ pos' = pos + wr
               /\ IF full THEN done' = done + 1 /\ fill' = 0 ELSE done' = done /\ fill' = idx + wr
         /\ UNCHANGED <<off, size, needed>>
BNext == BPiece \/ BStep
BTypes == /\ len \in Nat /\ done \in Nat /\ fill \in Nat /\ off \in Nat /\ size \in Nat /\ pos \in Nat /\ ok \in BOOLEAN /\ needed \in Nat
BInv == /\ BTypes
        /\ ok
        /\ pos <= size
        /\ len = off + pos
        /\ fill < B
        /\ len = B * done + fill

----------------------------------------------------------------------------
(* SipHash: fill the tail word, then whole words at an index i that starts at `needed`, while
   i < len - left, then the last `left` bytes.  pos is the index; the state between two pieces
   has pos = size.  While inside a piece the first word has been completed already.
   left and rest depend on the piece and on how many bytes were missing: needed. *)
SInit == BInit
SLeft == (size - needed) % 8
SEnd == size - needed - SLeft
\* the shared part: the new piece of k bytes meets `fill` buffered ones
SPiece ==
    /\ pos = size
    /\ \E k \in Nat :
        LET miss == IF fill # 0 THEN 8 - fill ELSE 0
            take == Min2(k, miss)
        IN /\ size' = k
           /\ off' = off + size
           /\ len' = len + k
           /\ IF fill # 0 /\ k < miss
              THEN /\ fill' = fill + k /\ done' = done /\ pos' = k /\ needed' = 0 /\ ok' = ok
              ELSE /\ needed' = miss
                   /\ ok' = (ok /\ take = miss /\ take <= k /\ (fill # 0 => off + size = 8 * done + fill))
                   /\ done' = (IF fill # 0 THEN done + 1 ELSE done)
                   \* an index at the end of the piece means: done with it
                   /\ IF miss = k THEN pos' = k /\ fill' = 0 ELSE pos' = miss /\ fill' = 0
SWord ==
    /\ pos < size
    /\ fill = 0
    /\ pos < SEnd
    /\ ok' = (ok /\ pos + 8 <= size /\ off + pos = 8 * done)
    /\ done' = done + 1
    /\ pos' = pos + 8
    /\ UNCHANGED <<len, fill, off, size, needed>>
STail ==
    /\ pos < size
    /\ fill = 0
    /\ ~(pos < SEnd)
    /\ ok' = (ok /\ pos + (IF Ctl = "over" /\ SLeft > 0 THEN 8 ELSE SLeft) <= size /\ pos + SLeft = size /\ off + pos = 8 * done)
    /\ fill' = SLeft
    /\ pos' = size
    /\ UNCHANGED <<len, done, off, size, needed>>
SNext == SPiece \/ SWord \/ STail
SInv == /\ BTypes
        /\ needed < 8
        /\ ok
        /\ pos <= size
        /\ len = off + size
        /\ fill < 8
        /\ IF pos = size THEN len = 8 * done + fill
           ELSE /\ fill = 0
                /\ off + pos = 8 * done
                /\ needed <= pos
                /\ (pos - needed) % 8 = 0
                /\ pos <= size - SLeft

----------------------------------------------------------------------------
(* Padding, for every number of message bytes (len is the only variable that matters). *)
PInit == /\ len \in Nat /\ done = 0 /\ fill = 0 /\ off = 0 /\ size = 0 /\ pos = 0 /\ ok = TRUE /\ needed = 0
Stay == UNCHANGED <<len, done, fill, off, size, pos, ok, needed>>
Z == B - L
Std == LET used == ((len % B) + 1 + L) % B IN len + 1 + (IF used = 0 THEN 0 ELSE B - used) + L
Coded == LET l1 == len + 1
             l2 == IF (IF Ctl = "pad" THEN l1 % B >= Z ELSE l1 % B > Z) THEN l1 + Z ELSE l1
             p == Z - (l2 % B)
         IN [len |-> l2 + p + L, p |-> p]
Chunks == LET t == len + (IF Ctl = "const" THEN L ELSE 1 + L) IN (t \div B) + (IF t % B # 0 THEN 1 ELSE 0)
PInv == /\ Coded.p >= 0 /\ Coded.p <= Z          \* the slice of zeros exists
        /\ Coded.len = Std
        /\ Std % B = 0 /\ Std - len >= 1 + L /\ Std - len <= B + L
        /\ Chunks * B = Std
=============================================================================

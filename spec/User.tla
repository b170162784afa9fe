------------------------------- MODULE User -------------------------------
(* Hash functions a user of the library might plug into it (harness/src/user.rs implements them
   outside the library): any block size, any digest size.  They exist to show that the generic
   parts of the library - HMAC and the provided engine methods - rely on nothing but the engine
   interface. *)
EXTENDS Words

\* name |-> <<block size, digest size>>
UserTable == [
  u1 |-> <<1, 1>>, u2 |-> <<2, 1>>, u3 |-> <<3, 2>>, u4 |-> <<4, 4>>, u5 |-> <<5, 3>>, u7 |-> <<7, 7>>,
  u8 |-> <<8, 4>>, u13 |-> <<13, 9>>, u16 |-> <<16, 16>>, u31 |-> <<31, 16>>, u32 |-> <<32, 20>>, u33 |-> <<33, 33>>,
  u48 |-> <<48, 28>>, u63 |-> <<63, 32>>, u64 |-> <<64, 64>>, u65 |-> <<65, 40>>, u72 |-> <<72, 72>>, u96 |-> <<96, 1>>,
  u100 |-> <<100, 64>>, u104 |-> <<104, 28>>, u112 |-> <<112, 56>>, u120 |-> <<120, 20>>, u127 |-> <<127, 100>>, u128 |-> <<128, 128>>,
  u129 |-> <<129, 32>>, u136 |-> <<136, 32>>, u144 |-> <<144, 64>>, u192 |-> <<192, 24>>, u256 |-> <<256, 32>>, u257 |-> <<257, 64>>]
IsUser(a) == a \in DOMAIN UserTable
UBlock(a) == UserTable[a][1]
UDigLen(a) == UserTable[a][2]
UMix(h, b) == Append(Tail(h), (h[1] * 5 + h[Len(h)] * 3 + b * 7 + 1) % 251)
UIv(a) == [i \in 1..UDigLen(a) |-> (i + UBlock(a)) % 256]
UCmp(h, b) == FoldLeft(UMix, h, b)
UTail(a, h, buf, n) == FoldLeft(UMix, h, buf \o BytesLE(n) \o [i \in 1..UDigLen(a) |-> 0])
=============================================================================

------------------------------- MODULE CtEq -------------------------------
(* Fixed-time comparison of two byte strings, as a program with a visible program counter.
   The observer sees the program counter at every step (and so every branch and the number of
   steps), but no data. *)
EXTENDS Naturals, Sequences, Bitwise

\* what the comparison must return
EqSpec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

\* or-fold of a w-bit accumulator onto its lowest bit, as coded: halving shifts
RECURSIVE Fold(_, _)
Fold(r, w) == IF w = 1 THEN r & 1 ELSE Fold(r | (r \div (2 ^ (w \div 2))), w \div 2)

\* one step of the program: state [pc, i, r, res]; early = TRUE is the negative control that
\* leaves the loop at the first difference
CtInit == [pc |-> "test", i |-> 1, r |-> 0, res |-> FALSE]
CtStep(s, a, b, w, early) ==
    CASE s.pc = "test" -> IF s.i > Len(a) THEN [s EXCEPT !.pc = "fold"] ELSE [s EXCEPT !.pc = "body"]
      [] s.pc = "body" -> LET r == s.r | (a[s.i] ^^ b[s.i])
                          IN [s EXCEPT !.r = r, !.i = @ + 1, !.pc = IF early /\ r # 0 THEN "fold" ELSE "test"]
      [] s.pc = "fold" -> [s EXCEPT !.pc = "done", !.res = (Fold(s.r, w) = 0)]
      [] s.pc = "done" -> s
=============================================================================

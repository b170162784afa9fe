------------------------------ MODULE MC_CtEq ------------------------------
(* Self-composition of CtEq: two runs over slices of one length advance together.  If their
   program counters never differ, the observer learns nothing but the length. *)
EXTENDS CtEq, TLC

CONSTANTS N, W, Early

VARIABLES a1, b1, a2, b2, s1, s2
vars == <<a1, b1, a2, b2, s1, s2>>

Strs(n) == [1..n -> 0..(2 ^ W - 1)]

Init == \E n \in 0..N :
          /\ a1 \in Strs(n) /\ b1 \in Strs(n) /\ a2 \in Strs(n) /\ b2 \in Strs(n)
          /\ s1 = CtInit /\ s2 = CtInit
Next == /\ s1' = CtStep(s1, a1, b1, W, Early)
        /\ s2' = CtStep(s2, a2, b2, W, Early)
        /\ UNCHANGED <<a1, b1, a2, b2>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the observations of both runs agree at every step: in particular whenever the results agree
Oblivious == s1.pc = s2.pc
Exact == s1.pc = "done" => s1.res = EqSpec(a1, b1)
Terminates == <>(s1.pc = "done")
\* the real width
FoldRight == \A r \in 0..255 : (Fold(r, 8) = 0) = (r = 0)
ASSUME FoldRight
=============================================================================

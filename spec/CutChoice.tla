------------------------------ MODULE CutChoice ------------------------------
(* Which of several balanced cuts is taken.  A cut is a record with the set  *)
(* of kinds of regions that its edge bridges (cross) and the rank of its     *)
(* weight (w); sur gives the surcharge of every kind of region.              *)
EXTENDS Graphs
Score(sur, c) == <<Cardinality(c.cross), SumOver(c.cross, LAMBDA r : sur[r])>>
Beats(s, t) == s[1] > t[1] \/ (s[1] = t[1] /\ s[2] > t[2])
\* the cuts that bridge the most kinds of regions, with the largest surcharge
Bridging(sur, C) == {c \in C : \A d \in C : ~Beats(Score(sur, d), Score(sur, c))}
Heaviest(C) == {c \in C : \A d \in C : d.w <= c.w}
\* up to three kinds of regions are looked at
Preferred(sur, C) == IF DOMAIN sur = {} \/ Cardinality(DOMAIN sur) > 3 THEN Heaviest(C)
                     \* sets of regions with equal surcharges may come in either order
                     ELSE LET B == Bridging(sur, C) IN {c \in B : \A d \in B : d.cross = c.cross => d.w <= c.w}
==============================================================================

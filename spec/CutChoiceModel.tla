--------------------------- MODULE CutChoiceModel ---------------------------
(* The choice among balanced cuts as an algorithm: go through the sets of    *)
(* kinds of regions, larger ones first and of equal size the one with the    *)
(* larger surcharge first, until some cut bridges all of the set; then take  *)
(* the heaviest of those.  Checked against the definition for every list of  *)
(* up to MaxCuts cuts, R kinds of regions and surcharges in Surs.            *)
EXTENDS CutChoice, TLC
CONSTANTS R, MaxCuts, MaxW, MaxS, Bug
VARIABLES cuts, sur, left, picked
vars == <<cuts, sur, left, picked>>
Regs == 1..R
AllCuts == [cross : SUBSET Regs, w : 1..MaxW]
Sum(S) == SumOver(S, LAMBDA r : sur[r])
Before(S, T) == IF Bug = "sum-first" THEN Sum(S) > Sum(T) \/ (Sum(S) = Sum(T) /\ Cardinality(S) > Cardinality(T))
                ELSE IF Bug = "small-first" THEN Cardinality(S) < Cardinality(T)
                ELSE Beats(<<Cardinality(S), Sum(S)>>, <<Cardinality(T), Sum(T)>>)
Init == /\ cuts \in {C \in SUBSET AllCuts : C # {} /\ Cardinality(C) <= MaxCuts}
        /\ sur \in [Regs -> 1..MaxS]
        /\ left = (SUBSET Regs) \ {{}}
        /\ picked = {}
Suits(c, S) == IF Bug = "any-of" THEN c.cross \cap S # {} ELSE S \subseteq c.cross
Look == /\ picked = {} /\ left # {}
        /\ \E S \in left :
             /\ \A T \in left : ~Before(T, S)
             /\ left' = left \ {S}
             /\ LET ok == {c \in cuts : Suits(c, S)} IN
                picked' = IF ok = {} THEN {} ELSE {CHOOSE c \in Heaviest(ok) : TRUE}
        /\ UNCHANGED <<cuts, sur>>
Rest == /\ picked = {} /\ left = {}
        /\ picked' = {CHOOSE c \in Heaviest(cuts) : TRUE}
        /\ UNCHANGED <<cuts, sur, left>>
Next == Look \/ Rest
Spec == Init /\ [][Next]_vars
\* C24
PicksPreferred == picked \subseteq Preferred(sur, cuts)
NoBetter == \A c \in picked : \A d \in cuts : c.cross \subseteq d.cross => (c.cross = d.cross /\ d.w <= c.w)
==============================================================================

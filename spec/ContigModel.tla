----------------------------- MODULE ContigModel -----------------------------
(* Plans and flips on every graph with N nodes.  The local checks made by    *)
(* the code (of the affected districts; around a single flipped node) agree  *)
(* with the contiguity of the whole plan, as long as the plan flipped from   *)
(* is contiguous.  The walk continues from contiguous plans only.            *)
EXTENDS Graphs, TLC
CONSTANTS N, K, Multi, Bug
VARIABLES E, a, prev, f
vars == <<E, a, prev, f>>
Nodes == 1..N
AllE == {e \in Nodes \X Nodes : e[1] < e[2]}
Init == /\ E \in SUBSET AllE
        /\ a \in [Nodes -> 1..K]
        /\ Contiguous(E, a, K)
        /\ prev = a /\ f = <<>>
Steps == IF Multi THEN UNION {[S -> 1..K] : S \in (SUBSET Nodes \ {{}})}
         ELSE {[v \in {u} |-> d] : u \in Nodes, d \in 1..K}
Next == /\ Contiguous(E, a, K)
        /\ \E g \in Steps : f' = g /\ a' = Flipped(a, g)
        /\ prev' = a /\ UNCHANGED E

Affected == {f[v] : v \in DOMAIN f} \cup {prev[v] : v \in DOMAIN f}
Piece(S) == IF Bug = "empty" THEN S = {} \/ Connected(E, S) ELSE Connected(E, S)
AffectedCheck == \A d \in (IF Bug = "gained" THEN {f[v] : v \in DOMAIN f} ELSE Affected) : Piece(Level(a, d))
SingleCheck ==
    \A v \in DOMAIN f :
        LET O == {u \in Nbrs(E, v) : a[u] = prev[v]}
        IN  IF O = {} THEN Bug = "empty"
            ELSE \A o \in O : O \subseteq ComponentOf(E, IF Bug = "local" THEN O ELSE Level(a, prev[v]), o)
\* a single node that moves to a district next to it
AdjacentFlip == /\ Cardinality(DOMAIN f) = 1
                /\ \A v \in DOMAIN f : /\ prev[v] # f[v]
                                       /\ \E u \in Nbrs(E, v) : prev[u] = f[v]
\* C08
AffectedExact == AffectedCheck <=> Contiguous(E, a, K)
SingleExact == AdjacentFlip => (SingleCheck <=> Contiguous(E, a, K))
Spec == Init /\ [][Next]_vars
==============================================================================

---------------------------- MODULE ProposalModel ----------------------------
(* The flip walk on every graph with N nodes.  Checked at every plan: the    *)
(* way the code computes its candidates from the cut edges gives exactly the *)
(* advertised moves, the odds add up to one, and moves can be taken back.    *)
EXTENDS ProposalDefs, TLC
CONSTANTS N, K, Bug
VARIABLES E, a, prev, kind
vars == <<E, a, prev, kind>>
Nodes == 1..N
AllE == {e \in Nodes \X Nodes : e[1] < e[2]}
Init == /\ E \in {F \in SUBSET AllE : Connected(F, Nodes)}
        /\ a \in [Nodes -> 1..K] /\ prev = a /\ kind = "start"
Cuts == CutEdges(E, a)
\* candidates as the code forms them
CodePairs == {<<x[1], a[x[2]]>> : x \in Cuts} \cup (IF Bug = "oneend" THEN {} ELSE {<<x[2], a[x[1]]>> : x \in Cuts})
CodeBoundary == {x[1] : x \in Cuts} \cup {x[2] : x \in Cuts}
CodeNext(v) == {a[u] : u \in Nbrs(E, v)} \ {a[v]}
Flip == Cuts # {} /\ \E e \in Cuts, i \in {1, 2} : a' = [a EXCEPT ![e[i]] = a[e[3 - i]]] /\ kind' = "flip"
Stay == Cuts = {} /\ a' = a /\ kind' = "stay"
Pull == \E e \in Cuts, i \in {1, 2} :
            /\ a' = [u \in Nodes |-> IF u \in Nbrs(E, e[i]) /\ a[u] # a[e[i]] THEN a[e[i]] ELSE a[u]]
            /\ kind' = "pull"
Next == /\ kind \in {"start", "flip"} /\ (Flip \/ Stay \/ Pull) /\ prev' = a /\ UNCHANGED E
PairsExact == CodePairs = Moves(E, a)
BoundaryExact == /\ CodeBoundary = BoundaryNodes(E, a)
                 /\ \A v \in CodeBoundary : CodeNext(v) # {} /\ CodeNext(v) = NextDistricts(E, a, v)
\* probabilities of random flip add up to one
OddsAddUp == LET W(m) == Links(E, a, m[1], m[2]) IN SumOver(Moves(E, a), W) = 2 * Cardinality(Cuts)
\* a step is one advertised move
StepsAdvertised == CASE kind = "flip" -> \E m \in Moves(E, prev) : a = Move(prev, m)
                     [] kind = "pull" -> a \in Chunks(E, prev)
                     [] kind = "stay" -> a = prev
                     [] OTHER -> TRUE
\* a flip of a node that leaves neighbours behind can be taken back
Back == kind = "flip" =>
    \A v \in Nodes : (a[v] # prev[v] /\ \E u \in Nbrs(E, v) : prev[u] = prev[v]) => <<v, prev[v]>> \in Moves(E, a)
Spec == Init /\ [][Next]_vars
==============================================================================

------------------------------ MODULE TreeModel ------------------------------
(* Finding balanced cuts by contracting leaves, in any order, on every tree  *)
(* with N nodes, every root and all small populations.                       *)
EXTENDS Trees, TLC
CONSTANTS N, MaxPop, Bug
Nodes == 1..N
AllE == {e \in Nodes \X Nodes : e[1] < e[2]}
VARIABLES T, root, pop, target, eps, acc, sub, live, cuts
vars == <<T, root, pop, target, eps, acc, sub, live, cuts>>
Total == SumOver(Nodes, LAMBDA v : pop[v])
Init == /\ T \in {F \in kSubset(N - 1, AllE) : Connected(F, Nodes)}
        /\ root \in {v \in Nodes : Deg(T, v) > 1 \/ N = 2}
        /\ pop \in [Nodes -> 1..MaxPop]
        /\ target \in {2, 3, 5} /\ eps \in {0, 4, 8}
        /\ acc = pop /\ sub = [v \in Nodes |-> {v}] /\ live = Nodes /\ cuts = {}
LiveDeg(v) == Cardinality({e \in T : v \in {e[1], e[2]} /\ e[1] \in live /\ e[2] \in live})
ParentOf(v) == CHOOSE u \in live : u \in Nbrs(T, v)
Contract(v) ==
    /\ v \in live /\ (v # root \/ Bug = "root") /\ LiveDeg(v) = 1
    /\ LET u == ParentOf(v)
           ok == /\ Within(acc[v], target, eps)
                 /\ Bug = "one-side" \/ Within(Total - acc[v], target, eps)
       IN /\ cuts' = IF ok THEN cuts \cup {[edge |-> Edge(u, v), subset |-> sub[v]]} ELSE cuts
          /\ acc' = [acc EXCEPT ![u] = @ + acc[v]]
          /\ sub' = [sub EXCEPT ![u] = IF Bug = "forgets" THEN @ ELSE @ \cup sub[v]]
          /\ live' = live \ {v}
    /\ UNCHANGED <<T, root, pop, target, eps>>
Next == \E v \in Nodes : Contract(v)
Done == Cardinality(live) = 1
\* C10
OnlyBalanced == \A c \in cuts : c.edge \in Balanced(T, pop, target, eps)
AllFound == Done => {c.edge : c \in cuts} = Balanced(T, pop, target, eps)
SubsetIsSide == \A c \in cuts : c.subset \in {Side(T, c.edge), OtherSide(T, c.edge)}
\* a cut of a tree splits the graph in two connected pieces
CutsSplit == \A c \in cuts : Connected(T, c.subset) /\ Connected(T, Nodes \ c.subset)
Spec == Init /\ [][Next]_vars
==============================================================================

------------------------------ MODULE SpanModel ------------------------------
(* Drawing spanning trees on every connected graph with N nodes.             *)
(* Kruskal: edges taken by weight, where a surcharge of one step is added to *)
(* edges between regions (weights: <<surcharge, random rank>>).              *)
(* Wilson: random walks, loops erased by overwriting the pointer of a node.  *)
EXTENDS Trees, TLC
CONSTANTS N, Method, Bug
Nodes == 1..N
AllE == {e \in Nodes \X Nodes : e[1] < e[2]}
VARIABLES E, reg, todo, T, inTree, ptr, at, from, pc
vars == <<E, reg, todo, T, inTree, ptr, at, from, pc>>
Conn == {F \in SUBSET AllE : Connected(F, Nodes)}
Sur(e) == IF reg[e[1]] # reg[e[2]] THEN 1 ELSE 0
Init == /\ E \in Conn /\ T = {} /\ ptr = [v \in Nodes |-> 0] /\ at = 0 /\ from = 0
        /\ IF Method = "kruskal" THEN /\ reg \in [Nodes -> 1..2] /\ inTree = {} /\ pc = "scan" /\ todo = E
           ELSE /\ reg = [v \in Nodes |-> 1] /\ \E r \in Nodes : inTree = {r}
                /\ pc = "start" /\ todo = {}
\* the next edge is any of the cheapest surcharge left: covers every order of the random parts
Scan == /\ pc = "scan" /\ todo # {}
        /\ \E e \in todo : /\ (Bug = "no-surcharge" \/ \A f \in todo : Sur(e) <= Sur(f))
                           /\ todo' = todo \ {e}
                           /\ T' = IF e[2] \in ComponentOf(T, Nodes, e[1]) THEN T ELSE T \cup {e}
        /\ pc' = IF Cardinality(todo) = 1 THEN "done" ELSE pc
        /\ UNCHANGED <<E, reg, inTree, ptr, at, from>>
Start == /\ pc = "start"
         /\ IF inTree = Nodes
            THEN /\ pc' = "done" /\ T' = {Edge(v, ptr[v]) : v \in {u \in Nodes : ptr[u] # 0}} /\ UNCHANGED <<at, from>>
            ELSE \E v \in Nodes \ inTree : at' = v /\ from' = v /\ pc' = "walk" /\ UNCHANGED T
         /\ UNCHANGED <<E, reg, todo, inTree, ptr>>
Walk == /\ pc = "walk" /\ at \notin inTree
        /\ \E u \in Nbrs(E, at) : /\ ptr' = IF Bug = "first-pointer" /\ ptr[at] # 0 THEN ptr ELSE [ptr EXCEPT ![at] = u]
                                  /\ at' = u
        /\ UNCHANGED <<E, reg, todo, T, inTree, from, pc>>
RECURSIVE Trail(_, _, _)
Trail(v, p, seen) == IF v \in inTree \/ v \in seen THEN seen ELSE Trail(p[v], p, seen \cup {v})
Join == /\ pc = "walk" /\ at \in inTree
        /\ inTree' = inTree \cup Trail(from, ptr, {})
        /\ pc' = "start" /\ UNCHANGED <<E, reg, todo, T, ptr, at, from>>
Next == IF Method = "kruskal" THEN Scan ELSE Start \/ Walk \/ Join
\* pointers of nodes visited by a walk that was cut short by the tree are overwritten before use;
\* pointers of nodes outside the tree are never read
\* C11
SpanningTree == pc = "done" => T \subseteq E /\ IsTree(T, Nodes)
FewestCrossings == (pc = "done" /\ Method = "kruskal") =>
    \A F \in SpanningTrees(E, Nodes) : SumOver(T, Sur) <= SumOver(F, Sur)
RegionsWhole == (pc = "done" /\ Method = "kruskal") =>
    \A r \in 1..2 : Cardinality(Components(T, {v \in Nodes : reg[v] = r}) ) = Cardinality(Components(E, {v \in Nodes : reg[v] = r}))
Spec == Init /\ [][Next]_vars
==============================================================================

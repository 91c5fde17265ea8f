-------------------------------- MODULE Trees --------------------------------
(* Trees, populations and balanced cuts.  Populations and targets are in     *)
(* quarters, tolerances in sixteenths.                                       *)
EXTENDS Graphs
PopOf(pop, S) == SumOver(S, LAMBDA v : pop[v])
Within(p, target, eps) == 16 * Abs(p - target) <= eps * target
\* the side of the tree edge e on which e[1] lies
Side(T, e) == LET N == UNION {{f[1], f[2]} : f \in T} IN ComponentOf(T \ {e}, N, e[1])
OtherSide(T, e) == LET N == UNION {{f[1], f[2]} : f \in T} IN N \ Side(T, e)
GoodSide(pop, S, target, eps) == Within(PopOf(pop, S), target, eps)
Balanced(T, pop, target, eps) ==
    {e \in T : GoodSide(pop, Side(T, e), target, eps) /\ GoodSide(pop, OtherSide(T, e), target, eps)}
OneSided(T, pop, target, eps) ==
    {e \in T : GoodSide(pop, Side(T, e), target, eps) \/ GoodSide(pop, OtherSide(T, e), target, eps)}
\* node sets that can be cut off a connected graph by one edge of a spanning tree
Splits(E, N, pop, target, eps, oneSided) ==
    {S \in SUBSET N : /\ S # {} /\ S # N
                      /\ GoodSide(pop, S, target, eps)
                      /\ oneSided \/ GoodSide(pop, N \ S, target, eps)
                      /\ Connected(E, S) /\ Connected(E, N \ S)}
\* a set of edges that forms a spanning tree of the nodes N
IsTree(T, N) == Cardinality(T) = Cardinality(N) - 1 /\ Connected(T, N)
\* spanning tree found by Kruskal's method for the order of edges s
RECURSIVE Kruskal(_, _, _)
Kruskal(s, N, T) == IF s = <<>> THEN T
    ELSE LET e == Head(s) IN Kruskal(Tail(s), N, IF e[2] \in ComponentOf(T, N, e[1]) THEN T ELSE T \cup {e})
\* number of edges of a maximal forest
Rank(E, N) == Cardinality(N) - Cardinality(Components(E, N))
==============================================================================

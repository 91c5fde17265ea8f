---------------------------- MODULE ProposalDefs -----------------------------
(* What each flip proposal may do, and how often: weights of the moves       *)
(* (v, d) (node v goes to district d).                                       *)
EXTENDS Graphs
CutE(E, a) == CutEdges(E, a)
\* number of cut edges that join v to district d
Links(E, a, v, d) == Cardinality({u \in Nbrs(E, v) : a[u] = d})
Moves(E, a) == {m \in (DOMAIN a) \X {a[v] : v \in DOMAIN a} : m[2] # a[m[1]] /\ Links(E, a, m[1], m[2]) > 0}
NextDistricts(E, a, v) == {a[u] : u \in Nbrs(E, v)} \ {a[v]}
Move(a, m) == [a EXCEPT ![m[1]] = m[2]]
\* probabilities are <<num, den>>
RandomFlip(E, a, m) == <<Links(E, a, m[1], m[2]), 2 * Cardinality(CutE(E, a))>>
Reversible(E, a, m) == <<1, Cardinality(Moves(E, a))>>
ReversibleBi(E, a, m) == <<1, Cardinality(BoundaryNodes(E, a)) * Cardinality(NextDistricts(E, a, m[1]))>>
\* the boundary node v pulls in its neighbours
Chunk(E, a, v) == [u \in DOMAIN a |-> IF u \in Nbrs(E, v) THEN a[v] ELSE a[u]]
Chunks(E, a) == {Chunk(E, a, v) : v \in BoundaryNodes(E, a)}
\* one directed cut edge <<from, to>> per district that has any: from joins the district of to
Arrows(E, a, d) == UNION {{<<e[1], e[2]>>, <<e[2], e[1]>>} : e \in CutEdgesOf(E, a, d)}
RECURSIVE Picks(_, _, _)
Picks(E, a, D) ==   \* sets of <<node, district>> moves, one per district
    IF D = {} THEN {{}}
    ELSE LET d == CHOOSE x \in D : TRUE
             rest == Picks(E, a, D \ {d})
             mine == {<<r[1], a[r[2]]>> : r \in Arrows(E, a, d)}
         IN IF mine = {} THEN rest ELSE {{m} \cup R : m \in mine, R \in rest}
NoClash(P) == \A m, q \in P : m[1] = q[1] => m = q
Applied(a, P) == [v \in DOMAIN a |-> IF \E m \in P : m[1] = v THEN (CHOOSE m \in P : m[1] = v)[2] ELSE a[v]]
\* b comes from the moves P; a node with several moves takes one of them
Explains(a, P, b) == \A v \in DOMAIN a : LET T == {m[2] : m \in {q \in P : q[1] = v}}
                                         IN IF T = {} THEN b[v] = a[v] ELSE b[v] \in T
==============================================================================

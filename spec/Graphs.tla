------------------------------- MODULE Graphs -------------------------------
(* Finite undirected graphs.  Nodes are 1..n, an edge is a pair <<u, v>>     *)
(* with u < v.  An assignment is a function from nodes to districts 1..k.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

ToSet(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Edge(u, v) == IF u < v THEN <<u, v>> ELSE <<v, u>>

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
SumSeq(s) == FoldSet(LAMBDA i, acc : s[i] + acc, 0, DOMAIN s)

\* The fraction a/b in millionths, rounded down, without leaving 32 bits (0 <= a, 0 < b < 2 * 10^8)
RECURSIVE Digits(_, _, _, _)
Digits(a, b, q, i) == IF i = 0 THEN q + (a \div b) ELSE Digits(10 * (a % b), b, 10 * (q + (a \div b)), i - 1)
Millionths(a, b) == Digits(a, b, 0, 6)

\* The smallest and the largest of a non-empty set of integers
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Incident(E, v) == {e \in E : e[1] = v \/ e[2] = v}
Other(e, v) == IF e[1] = v THEN e[2] ELSE e[1]
Nbrs(E, v) == {Other(e, v) : e \in Incident(E, v)}
Deg(E, v) == Cardinality(Incident(E, v))

\* Edges with both ends in S
Induced(E, S) == {e \in E : e[1] \in S /\ e[2] \in S}

\* Nodes reachable from the frontier F within S (R: reached so far)
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(E, S, F, R) ==
    IF F = {} THEN R
    ELSE LET nxt == {w \in S : /\ w \notin R
                               /\ \E e \in E : \/ e[1] = w /\ e[2] \in F
                                               \/ e[2] = w /\ e[1] \in F}
         IN ReachFrom(E, S, nxt, R \cup nxt)

ComponentOf(E, S, v) == ReachFrom(Induced(E, S), S, {v}, {v})
RECURSIVE Components(_, _)
Components(E, S) ==
    IF S = {} THEN {}
    ELSE LET v == CHOOSE x \in S : TRUE
             C == ComponentOf(E, S, v)
         IN {C} \cup Components(E, S \ C)

\* A district is connected if it is not empty and in one piece
Connected(E, S) == S # {} /\ LET v == CHOOSE x \in S : TRUE
                             IN ComponentOf(E, S, v) = S

IsForest(E, S) == Cardinality(Induced(E, S)) = Cardinality(S) - Cardinality(Components(E, S))
IsSpanningTree(T, E, S) == /\ T \subseteq E
                           /\ Cardinality(T) = Cardinality(S) - 1
                           /\ Connected(T, S)

\* All spanning trees of the connected graph (S, E); small graphs only
SpanningTrees(E, S) == {T \in kSubset(Cardinality(S) - 1, E) : Connected(T, S)}

------------------------------------------------------------------------------
(* Plans *)
Level(a, d) == {v \in DOMAIN a : a[v] = d}
Crosses(a, e) == a[e[1]] # a[e[2]]
CutEdges(E, a) == {e \in E : Crosses(a, e)}
CutEdgesOf(E, a, d) == {e \in E : Crosses(a, e) /\ (a[e[1]] = d \/ a[e[2]] = d)}
BoundaryNodes(E, a) == UNION {{e[1], e[2]} : e \in CutEdges(E, a)}
AdjacentPairs(E, a) == {{a[e[1]], a[e[2]]} : e \in CutEdges(E, a)}
\* Assignment after the flips f (a function from some nodes to districts)
Flipped(a, f) == [v \in DOMAIN a |-> IF v \in DOMAIN f THEN f[v] ELSE a[v]]
Contiguous(E, a, k) == \A d \in 1..k : Connected(E, Level(a, d))
\* Function made of a sequence of <<key, value>> pairs
PairsToFun(s) == [x \in {s[i][1] : i \in DOMAIN s} |->
                     LET i == CHOOSE j \in DOMAIN s : s[j][1] = x IN s[i][2]]
==============================================================================

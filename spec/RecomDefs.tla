------------------------------ MODULE RecomDefs ------------------------------
(* Merging two districts and splitting them again.                           *)
EXTENDS Trees
PairCuts(E, a, d, f) == {e \in E : {a[e[1]], a[e[2]]} = {d, f} /\ d # f}
Seam(E, A, B) == Cardinality({e \in E : (e[1] \in A /\ e[2] \in B) \/ (e[1] \in B /\ e[2] \in A)})
Tau(E, S) == IF S = {} THEN 0 ELSE Cardinality(SpanningTrees(Induced(E, S), S))
\* b re-splits districts d and f of a into connected, balanced halves
Resplit(E, a, b, d, f, pop, target, eps) ==
    LET A == Level(b, d) B == Level(b, f) IN
    /\ \A v \in DOMAIN a : a[v] \notin {d, f} => b[v] = a[v]
    /\ A \cup B = Level(a, d) \cup Level(a, f)
    /\ Connected(E, A) /\ Connected(E, B)
    /\ GoodSide(pop, A, target, eps) /\ GoodSide(pop, B, target, eps)
ValidRecom(E, a, b, pop, target, eps) ==
    \E e \in CutEdges(E, a) : Resplit(E, a, b, a[e[1]], a[e[2]], pop, target, eps)
\* Reversible step: pairs <<tree, edge>> of the merged districts that give the halves {A, B};
\* trees with more than M balanced edges are an error
TreesOf(E, S) == SpanningTrees(Induced(E, S), S)
Ways(E, S, A, B, pop, target, eps, M) ==
    SumOver(TreesOf(E, S), LAMBDA T :
        LET bal == Balanced(T, pop, target, eps) IN
        IF Cardinality(bal) > M THEN 0
        ELSE Cardinality({e \in bal : {Side(T, e), OtherSide(T, e)} = {A, B}}))
TooMany(E, S, pop, target, eps, M) ==
    Cardinality({T \in TreesOf(E, S) : Cardinality(Balanced(T, pop, target, eps)) > M})
==============================================================================

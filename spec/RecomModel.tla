------------------------------ MODULE RecomModel ------------------------------
(* The ReCom walk on every connected graph with N nodes: plans stay          *)
(* contiguous and balanced, a step touches two adjacent districts only.      *)
(* Reversible ReCom: the flow along every step equals the flow back, where a *)
(* plan has the weight (product of the numbers of spanning trees).           *)
EXTENDS RecomDefs, TLC
CONSTANTS N, K, M, Eps16, Bug
VARIABLES E, a, prev
vars == <<E, a, prev>>
Nodes == 1..N
AllE == {e \in Nodes \X Nodes : e[1] < e[2]}
pop == [v \in Nodes |-> 4]
target == (4 * N) \div K
Fine(x) == Contiguous(E, x, K) /\ \A d \in 1..K : GoodSide(pop, Level(x, d), target, Eps16)
Init == /\ E \in {F \in SUBSET AllE : Connected(F, Nodes)}
        /\ a \in [Nodes -> 1..K] /\ Fine(a) /\ prev = a
Step == \E e \in CutEdges(E, a) :
          LET S == Level(a, a[e[1]]) \cup Level(a, a[e[2]]) IN
          \E A \in Splits(Induced(E, S), S, pop, target, Eps16, Bug = "one-sided") :
             a' = [v \in Nodes |-> IF v \in A THEN a[e[1]] ELSE IF v \in S THEN (IF Bug = "label" THEN 1 ELSE a[e[2]]) ELSE a[v]]
Next == prev = a /\ Step /\ prev' = a /\ UNCHANGED E
\* C12
StaysFine == Fine(a)
OnePair == a = prev \/ ValidRecom(E, prev, a, pop, target, Eps16)
\* C13: weight(prev) * P(prev -> a) = weight(a) * P(a -> prev), all scaled by K*K*M*tau(merged)
Halves == LET C == {v \in Nodes : a[v] # prev[v]} IN {prev[v] : v \in C} \cup {a[v] : v \in C}
Rate(x, y, d, f) == \* probability of the step x -> y, times K*K*M*tau*seam(y)/2
    LET A == Level(y, d) B == Level(y, f) S == A \cup B
    IN Ways(E, S, A, B, pop, target, Eps16, M)
Balance == (a # prev /\ Cardinality(Halves) = 2) =>
    LET d == CHOOSE x \in Halves : TRUE
        f == CHOOSE x \in Halves : x # d
        Wt(x) == Tau(E, Level(x, d)) * Tau(E, Level(x, f))
        SeamOf(x) == Seam(E, Level(x, d), Level(x, f))
    IN IF Bug = "no-seam"
       THEN Wt(prev) * Rate(prev, a, d, f) = Wt(a) * Rate(a, prev, d, f)
       ELSE Wt(prev) * Rate(prev, a, d, f) * SeamOf(prev) = Wt(a) * Rate(a, prev, d, f) * SeamOf(a)
\* the number of ways is the product of tree counts and seam length, as long as M is large enough
WaysFormula == (M >= N /\ a # prev /\ Cardinality(Halves) = 2) =>
    LET d == CHOOSE x \in Halves : TRUE
        f == CHOOSE x \in Halves : x # d
    IN Rate(prev, a, d, f) = Tau(E, Level(a, d)) * Tau(E, Level(a, f)) * Seam(E, Level(a, d), Level(a, f))
Spec == Init /\ [][Next]_vars
==============================================================================

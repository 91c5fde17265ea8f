------------------------------- MODULE MetaModel -------------------------------
(* Walks on the metagraph of plans.  The listing of neighbours by cut edges   *)
(* (every cut edge, both ends, duplicates dropped) gives exactly the boundary *)
(* moves; with contiguous, non-empty districts neighbours are mutual; plans   *)
(* are told apart by numbering the districts seen.                            *)
EXTENDS Graphs, TLC
CONSTANTS N, K, Steps, Bug
VARIABLES E, a, seen, known, plans, cnt
vars == <<E, a, seen, known, plans, cnt>>
\* seen: history of plans; known: districts in the order seen; plans: keys of plans
Nodes == 1..N
Fine(x) == \A d \in 1..K : Level(x, d) # {} /\ (Bug = "discontiguous" \/ Connected(E, Level(x, d)))
ByDefinition(x) == {<<v, d>> \in Nodes \X (1..K) : d # x[v] /\ \E e \in E : (e[1] = v /\ x[e[2]] = d) \/ (e[2] = v /\ x[e[1]] = d)}
\* the way the code lists them
ByCutEdges(x) == LET C == CutEdges(E, x) IN
    IF Bug = "one-end" THEN {<<e[1], x[e[2]]>> : e \in C}
    ELSE {<<e[1], x[e[2]]>> : e \in C} \cup {<<e[2], x[e[1]]>> : e \in C}
Move(x, m) == [x EXCEPT ![m[1]] = m[2]]
Valid(x) == {m \in ByCutEdges(x) : Fine(Move(x, m))}
Districts(x) == {Level(x, d) : d \in 1..K}
\* the code's bookkeeping: numbers for districts, plans by sorted numbers
Number(s, S) == CHOOSE i \in DOMAIN s : s[i] = S
RECURSIVE Enter(_, _)
Enter(s, Ds) == IF Ds = <<>> THEN s ELSE Enter(IF \E i \in DOMAIN s : s[i] = Head(Ds) THEN s ELSE Append(s, Head(Ds)), Tail(Ds))
Note(x) == /\ known' = Enter(known, [d \in 1..K |-> Level(x, d)])
           /\ plans' = plans \cup {IF Bug \in {"cut-edge-key", "discontiguous"} THEN CutEdges(E, x) ELSE {Number(known', S) : S \in Districts(x)}}
           /\ seen' = Append(seen, x)
           /\ cnt' = cnt + 1
Init == /\ E \in SUBSET {<<u, v>> \in Nodes \X Nodes : u < v}
        /\ Connected(E, Nodes)
        /\ a \in [Nodes -> 1..K] /\ Fine(a)
        /\ seen = <<>> /\ known = <<>> /\ plans = {} /\ cnt = 0
Next == /\ cnt < Steps
        /\ Note(a)
        /\ \E m \in Valid(a) \cup {<<1, a[1]>>} : a' = Move(a, m)
        /\ UNCHANGED E
NeighboursExact == ByCutEdges(a) = ByDefinition(a)
NeighboursMutual == \A m \in Valid(a) : <<m[1], a[m[1]]>> \in Valid(Move(a, m))
CountsExact == /\ cnt = Len(seen)
               /\ Len(known) = Cardinality(UNION {Districts(x) : x \in ToSet(seen)})
               /\ Cardinality(plans) = Cardinality({Districts(x) : x \in ToSet(seen)})
==============================================================================

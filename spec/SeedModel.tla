------------------------------- MODULE SeedModel -------------------------------
(* Seed plans.  Mode "tree": one district after the other is cut off, with a  *)
(* running population debt that narrows the range for the next, and the last  *)
(* two are split.  Mode "seed": the graph is divided into chunks along the    *)
(* prime factors of the number of districts (or Chunks, or at most Ceil), or  *)
(* a district is bitten off when that does not divide it.  Every cut that     *)
(* some spanning tree allows can be drawn.  Node populations 1..MaxPop;       *)
(* everything is multiplied by K so that the ideal population is a whole      *)
(* number.                                                                    *)
EXTENDS Trees, TLC
CONSTANTS N, K, MaxPop, Eps16, Mode, Chunks, Ceil, Bug
VARIABLES E, pop, tasks, done, debt, ideal
vars == <<E, pop, tasks, done, debt, ideal>>
Nodes == 1..N
\* tasks: <<node set, number of districts>> still to do; ideal: target population
IsPrime(p) == p >= 2 /\ \A d \in 2..(p - 1) : p % d # 0
PrimeFactor(k, c) == \* the largest prime factor of k that is at most c, or 0
    LET F == {p \in 2..k : IsPrime(p) /\ k % p = 0 /\ p <= c} IN IF F = {} THEN 0 ELSE MaxOf(F)
Init == /\ E \in {F \in SUBSET {e \in Nodes \X Nodes : e[1] < e[2]} : Connected(F, Nodes)}
        /\ pop \in [Nodes -> {K * p : p \in 1..MaxPop}]
        /\ ideal = PopOf(pop, Nodes) \div K
        /\ tasks = <<<<Nodes, K>>>> /\ done = {} /\ debt = 0
Cut(S) == {A \in SUBSET S : A # {} /\ A # S /\ Connected(E, A) /\ Connected(E, S \ A)}
Fits(A) == GoodSide(pop, A, ideal, Eps16)
\* ---- one district after the other -----------------------------------------------
InRange(A) == \* 16 * bounds, narrowed by the debt
    LET p == 16 * PopOf(pop, A)
        lo == Max2(ideal * (16 - Eps16), ideal * (16 - Eps16) - (IF Bug = "no-debt" THEN 0 ELSE 16 * debt))
        hi == Min2(ideal * (16 + Eps16), ideal * (16 + Eps16) - (IF Bug = "no-debt" THEN 0 ELSE 16 * debt))
    IN lo <= p /\ p <= hi
Rest == Tail(tasks)
Bite == LET S == tasks[1][1] k == tasks[1][2] IN
    /\ k >= 3
    /\ Mode = "tree" \/ (LET c == IF Chunks > 0 THEN Chunks ELSE PrimeFactor(k, Ceil) IN c = 0 \/ k % c # 0)
    /\ \E A \in Cut(S) : /\ IF Mode = "tree" THEN InRange(A) ELSE Fits(A)
                         /\ done' = done \cup {A}
                         /\ debt' = debt + PopOf(pop, A) - ideal
                         /\ tasks' = <<<<S \ A, k - 1>>>> \o Rest
Halve == LET S == tasks[1][1] k == tasks[1][2] IN
    /\ k = 2
    /\ \E A \in Cut(S) : /\ Fits(A) /\ (Bug = "one-sided" \/ Fits(S \ A))
                         /\ done' = done \cup {A, S \ A} /\ tasks' = Rest /\ debt' = 0
Single == /\ tasks[1][2] = 1
          /\ done' = done \cup {tasks[1][1]} /\ tasks' = Rest /\ debt' = debt
\* ---- chunks -----------------------------------------------------------------------
\* all ways to cut S into c connected pieces, one after the other, each fit for m districts
GoodChunk(A, m, c) == 16 * m * c * Abs(PopOf(pop, A) - m * ideal) <= (IF m = 1 THEN m * c ELSE 1) * Eps16 * m * ideal
LastChunk(A, m) == (IF m = 1 THEN 16 ELSE 32) * Abs(PopOf(pop, A) - m * ideal) <= Eps16 * m * ideal
RECURSIVE Chunkings(_, _, _, _)
Chunkings(S, left, m, c) ==
    IF left = 1 THEN IF LastChunk(S, m) \/ Bug = "last-chunk" THEN {{S}} ELSE {}
    ELSE UNION {{{A} \cup R : R \in Chunkings(S \ A, left - 1, m, c)} : A \in {B \in Cut(S) : GoodChunk(B, m, c)}}
RECURSIVE AsTasks(_, _)
AsTasks(Cs, m) == IF Cs = {} THEN <<>> ELSE LET C == CHOOSE x \in Cs : TRUE IN <<<<C, m>>>> \o AsTasks(Cs \ {C}, m)
Chunk == LET S == tasks[1][1] k == tasks[1][2]
             c == IF Chunks > 0 THEN Chunks ELSE PrimeFactor(k, Ceil) IN
    /\ Mode = "seed" /\ k >= 3 /\ c > 0 /\ k % c = 0
    /\ \E Cs \in Chunkings(S, c, k \div c, c) : tasks' = AsTasks(Cs, k \div c) \o Rest
    /\ done' = done /\ debt' = debt
Next == tasks # <<>> /\ (Bite \/ Halve \/ Single \/ Chunk) /\ UNCHANGED <<E, pop, ideal>>
\* ---- C14 ----------------------------------------------------------------------------
Pieces == done \cup {tasks[i][1] : i \in DOMAIN tasks}
CoversDisjointly == /\ UNION Pieces = Nodes
                    /\ \A A, B \in Pieces : A # B => A \cap B = {}
                    /\ \A i, j \in DOMAIN tasks : i # j => tasks[i][1] \cap tasks[j][1] = {}
AllConnected == \A A \in Pieces : Connected(E, A)
RightNumber == Cardinality(done) + SumOver(DOMAIN tasks, LAMBDA i : tasks[i][2]) = K
WithinTolerance == \A A \in done : Fits(A)
\* the debt never exceeds the tolerance, so the rest stays fit for division
DebtBounded == Mode = "tree" => 16 * Abs(debt) <= Eps16 * ideal
Spec == Init /\ [][Next]_vars
==============================================================================

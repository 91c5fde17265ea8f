------------------------------- MODULE SeedTrace -------------------------------
(* Judges recorded seed plans.  part: result of a partitioning method (res    *)
(* "plan" with b, or the name of the error), tnum/tden the target in quarters;*)
(* chunks: result of get_seed_chunks; factor: largest prime factor; first:    *)
(* target of the first split asked for by the recursive seeding; ways: all of  *)
(* them, on a line or a ring of equal nodes.                                  *)
EXTENDS Trees, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
E == ToSet(Eps[ep].E)
pop == Eps[ep].pop
NameIf(c, name) == IF c THEN {} ELSE {name}
Nodes == DOMAIN pop
\* |p - tn/td| <= eps/16 * tn/td
Fits(S, tn, td, eps) == 16 * Abs(td * PopOf(pop, S) - tn) <= eps * tn
IsPrime(p) == p >= 2 /\ \A d \in 2..(p - 1) : p % d # 0
PrimeFactor(k, c) == LET F == {p \in 2..k : IsPrime(p) /\ k % p = 0 /\ p <= c} IN IF F = {} THEN 0 ELSE MaxOf(F)
JudgePart(e) ==
    IF e.res # "plan"
    THEN NameIf(e.res \in ToSet(e.allowed), "documented-error")
         \cup NameIf(e.sure # 2, "finds-the-plan-of-a-line")
         \cup NameIf(e.sure # 1 \/ ~\E S \in SUBSET Nodes : S # {} /\ S # Nodes /\ Connected(E, S) /\ Connected(E, Nodes \ S)
                                       /\ Fits(S, e.tn, e.td, e.eps) /\ Fits(Nodes \ S, e.tn, e.td, e.eps), "finds-a-split-if-there-is-one")
    ELSE NameIf(\A v \in Nodes : e.b[v] \in 1..e.k, "every-node-gets-one-of-the-labels")
         \cup NameIf(\A d \in 1..e.k : Level(e.b, d) # {}, "every-label-used")
         \cup NameIf(\A d \in 1..e.k : Level(e.b, d) = {} \/ Connected(E, Level(e.b, d)), "districts-connected")
         \cup NameIf(e.free = 1 \/ \A d \in 1..e.k : Fits(Level(e.b, d), e.tn, e.td, e.eps), "districts-within-tolerance")
         \cup NameIf(e.kept = 1, "graph-left-as-it-was")
         \cup NameIf(e.extra = 0, "nothing-else-assigned")
JudgeChunks(e) ==
    IF e.res # "plan" THEN NameIf(e.res \in ToSet(e.allowed), "documented-error") \cup NameIf(e.sure # 2, "finds-the-plan-of-a-line")
    ELSE NameIf(Len(e.chunks) = e.c, "number-of-chunks")
         \cup NameIf(UNION {ToSet(e.chunks[i]) : i \in DOMAIN e.chunks} = Nodes
                     /\ SumSeq([i \in DOMAIN e.chunks |-> Len(e.chunks[i])]) = Cardinality(Nodes), "chunks-cover-disjointly")
         \cup NameIf(\A i \in DOMAIN e.chunks : Connected(E, ToSet(e.chunks[i])), "chunks-connected")
         \cup NameIf(\A i \in DOMAIN e.chunks : Fits(ToSet(e.chunks[i]), e.m * e.tn, e.td, e.eps), "chunks-within-tolerance")
\* first split of k districts: into chunks if the divisor divides k, else a district is bitten off
JudgeFirst(e) ==
    LET c == IF e.n > 0 THEN e.n ELSE PrimeFactor(e.k, IF e.ceil > 0 THEN e.ceil ELSE e.k)
        chunked == e.k >= 3 /\ c > 0 /\ e.k % c = 0
    IN NameIf(IF chunked THEN e.fn * c = PopOf(pop, Nodes) * e.fd ELSE e.fn * e.td = e.tn * e.fd, "splits-along-the-requested-divisor")
\* every split asked for on a line of equal nodes: <<districts in the graph, districts to cut off>>
RECURSIVE Ways(_, _, _)
Ways(k, n, ceil) ==
    LET c == IF n > 0 THEN n ELSE PrimeFactor(k, IF ceil > 0 THEN ceil ELSE k)
    IN IF k = 1 THEN {} ELSE IF k = 2 THEN {<<2, 1>>}
       ELSE IF c = 0 \/ k % c # 0 THEN {<<k, 1>>} \cup Ways(k - 1, n, ceil)
       ELSE {<<i * (k \div c), k \div c>> : i \in 2..c} \cup Ways(k \div c, n, ceil)
JudgeWays(e) == NameIf(ToSet(e.ways) = Ways(e.k, e.n, e.ceil), "splits-along-the-requested-divisor-at-every-level")
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k0 = "part" -> JudgePart(e) [] e.k0 = "chunks" -> JudgeChunks(e) [] e.k0 = "first" -> JudgeFirst(e) [] e.k0 = "ways" -> JudgeWays(e)
                   [] e.k0 = "factor" -> NameIf(e.got = PrimeFactor(e.num, e.ceil), "largest-prime-factor")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

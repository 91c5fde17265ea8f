------------------------------ MODULE PlanDefs ------------------------------
(* What every quantity tracked on a plan has to be, defined from scratch on  *)
(* the graph and the assignment alone.                                       *)
(* A graph record G has: n (nodes 1..n), E (sequence of edges), w (shared    *)
(* length per edge), rim (1 for nodes on the rim), bp (boundary length per   *)
(* node), cols (node columns; NaN is NANV), cty (sequence of region columns).*)
EXTENDS Graphs, TLC

NANV == 1000000007
MISSINGV == 1000000009

Nodes(G) == 1..G.n
EdgeSet(G) == ToSet(G.E)

\* ---- tallies ----------------------------------------------------------------
\* A node counts only if none of the columns added up is missing for it
NodeSum(G, cs, v) == IF \E i \in DOMAIN cs : G.cols[cs[i]][v] = NANV THEN 0
                     ELSE SumOver(DOMAIN cs, LAMBDA i : G.cols[cs[i]][v])
TallyOf(G, a, cs, d) == SumOver(Level(a, d), LAMBDA v : NodeSum(G, cs, v))
GraphTotal(G, cs) == SumOver(Nodes(G), LAMBDA v : NodeSum(G, cs, v))

\* ---- boundaries -------------------------------------------------------------
Rim(G) == {v \in Nodes(G) : G.rim[v] = 1}
Exterior(G, a, d) == SumOver(Level(a, d) \cap Rim(G), LAMBDA v : G.bp[v])
Interior(G, a, d) ==
    SumOver({i \in DOMAIN G.E : Crosses(a, G.E[i]) /\ (a[G.E[i][1]] = d \/ a[G.E[i][2]] = d)},
            LAMBDA i : G.w[i])
Perimeter(G, a, d) == Exterior(G, a, d) + Interior(G, a, d)

\* ---- regions ----------------------------------------------------------------
Regions(G, c) == {G.cty[c][v] : v \in Nodes(G)}
RegionNodes(G, c, r) == {v \in Nodes(G) : G.cty[c][v] = r}
DistrictsMet(G, a, c, r) == {a[v] : v \in RegionNodes(G, c, r)}
IsSplit(G, a, c, r) == Cardinality(DistrictsMet(G, a, c, r)) > 1
SplitRegions(G, a, c) == {r \in Regions(G, c) : IsSplit(G, a, c, r)}
InsideCuts(G, a, c) == {e \in CutEdges(EdgeSet(G), a) : G.cty[c][e[1]] = G.cty[c][e[2]]}
\* Regions with a cut edge between two of their own nodes
CutRegions(G, a, c) == {G.cty[c][e[1]] : e \in InsideCuts(G, a, c)}
LocParts(G, a, c) == SumOver(Regions(G, c), LAMBDA r : Cardinality(DistrictsMet(G, a, c, r)))
LocPieces(G, a, c) ==
    SumOver({<<r, d>> \in Regions(G, c) \X {a[v] : v \in Nodes(G)} : d \in DistrictsMet(G, a, c, r)},
            LAMBDA x : Cardinality(Components(EdgeSet(G), RegionNodes(G, c, x[1]) \cap Level(a, x[2]))))
Share(G, a, c, r, d) == Cardinality(RegionNodes(G, c, r) \cap Level(a, d))

\* 10^6 * ln(i)
LnTab == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585,
           2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732>>
\* N * 10^6 * Shannon entropy: the sum over localities and districts of
\* n(r,d) * ln(n(r) / n(r,d))
ShannonN(G, a, c) ==
    SumOver(Regions(G, c), LAMBDA r :
        LET nr == Cardinality(RegionNodes(G, c, r)) IN
        SumOver(DistrictsMet(G, a, c, r), LAMBDA d :
            LET x == Share(G, a, c, r, d) IN x * (LnTab[nr] - LnTab[x])))

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN
                           IF m * m <= x THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m)
\* The square root, rounded down, for x < 2^31
ISqrt(x) == IF x < 2 THEN x ELSE ISqrtIn(x, 0, Min2(x, 46340))

\* 1000 * p^(1-alpha) for p = x/y, where two*alpha is given: alpha = 0, 1/2, 1, -1
PowTab(two, x, y) == CASE two = 0 -> (1000 * x) \div y
                       [] two = 1 -> ISqrt(Millionths(x, y))
                       [] two = 2 -> 1000
                       [] two = -2 -> (1000 * x * x) \div (y * y)
\* 1000 * power entropy
PowerEnt(G, a, c, two) ==
    SumOver(Regions(G, c), LAMBDA r :
        LET nr == Cardinality(RegionNodes(G, c, r))
            s == SumOver(DistrictsMet(G, a, c, r), LAMBDA d : PowTab(two, Share(G, a, c, r, d), nr))
        IN (G.n * (s - 1000)) \div nr)

\* ---- elections ----------------------------------------------------------------
\* ps: the columns of the parties, first party first
Votes(G, a, ps, j, d) == TallyOf(G, a, <<ps[j]>>, d)
Cast(G, a, ps, d) == SumOver(DOMAIN ps, LAMBDA j : Votes(G, a, ps, j, d))
Won(G, a, ps, j, d) == \A o \in DOMAIN ps : o = j \/ Votes(G, a, ps, j, d) > Votes(G, a, ps, o, d)
==============================================================================

------------------------------ MODULE TreeTrace ------------------------------
(* Judges recorded results of the tree methods.                              *)
EXTENDS Trees, CutChoice, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
Bits(x) == x = 1
\* ---- C10 ------------------------------------------------------------------
JudgeCuts(e) ==
    LET T == ToSet(e.T)
        found == [i \in DOMAIN e.cuts |-> <<e.cuts[i][1][1], e.cuts[i][1][2]>>]
        want == IF e.one = 1 THEN OneSided(T, e.pop, e.t, e.eps) ELSE Balanced(T, e.pop, e.t, e.eps)
    IN NameIf(ToSet(found) \subseteq want, e.m \o ":only-balanced-edges")
       \cup NameIf(want \subseteq ToSet(found) \/ (e.one = 1 /\ e.m = "contraction"), e.m \o ":every-balanced-edge")
       \cup NameIf(Len(found) = Cardinality(ToSet(found)), e.m \o ":each-edge-once")
       \cup NameIf(\A i \in DOMAIN e.cuts : found[i] \in T =>
                      LET S == ToSet(e.cuts[i][2]) IN
                      /\ S \in {Side(T, found[i]), OtherSide(T, found[i])}
                      /\ e.one = 1 => (found[i] \notin want \/ GoodSide(e.pop, S, e.t, e.eps)),
                   e.m \o ":subset-is-a-side")
JudgeSplit(e) ==
    LET E == ToSet(e.E) N == 1..Len(e.pop)
        S == ToSet(e.S) T == ToSet(e.T)
    IN IF e.res = "set"
       THEN NameIf(S # {} /\ S # N /\ S \subseteq N /\ Connected(E, S) /\ Connected(E, N \ S), "both-sides-connected")
            \cup NameIf(GoodSide(e.pop, S, e.t, e.eps), "side-within-tolerance")
            \cup NameIf(e.one = 1 \/ GoodSide(e.pop, N \ S, e.t, e.eps), "complement-within-tolerance")
            \cup NameIf(e.tries <= e.max, "attempts-bounded")
            \cup (IF T # {} /\ e.tries = 1
                  THEN NameIf(\E x \in T : S \in {Side(T, x), OtherSide(T, x)}, "cuts-the-given-tree") ELSE {})
       ELSE \* an error, or None when asked to give up at once
            NameIf(e.res = (IF e.resel = 1 THEN "ReselectException" ELSE "RuntimeError")
                   \/ (e.res = "None" /\ e.once = 1), "documented-error")
            \cup NameIf(e.tries <= e.max, "attempts-bounded")
            \cup NameIf(e.sure = 0 \/ Splits(E, N, e.pop, e.t, e.eps, e.one = 1) = {}, "finds-a-split-that-exists")
            \cup (IF T # {} /\ e.m # "contraction1"
                  THEN NameIf((IF e.one = 1 THEN OneSided(T, e.pop, e.t, e.eps) ELSE Balanced(T, e.pop, e.t, e.eps)) = {},
                              "finds-the-cut-of-the-given-tree") ELSE {})
\* ---- C11 ------------------------------------------------------------------
\* surcharge of an edge, in quarters: once per attribute that differs or is missing (0)
Sur(e, x) == SumOver(DOMAIN e.regions, LAMBDA r :
    IF e.regions[r][x[1]] # e.regions[r][x[2]] \/ e.regions[r][x[1]] = 0 \/ e.regions[r][x[2]] = 0
    THEN e.sur[r] ELSE 0)
JudgeRandom(e) ==
    LET E == ToSet(e.E) N == 1..e.n T == ToSet(e.T)
        w == [x \in E |-> e.w[CHOOSE i \in DOMAIN e.E : e.E[i] = x]]     \* <<rank, floor(1000000 * weight)>>
        big == {Sur(e, x) : x \in E}
    IN NameIf(T \subseteq E /\ IsTree(T, N), "random:spanning-tree")
       \cup (IF e.w = <<>> THEN {}
             ELSE NameIf(\A x \in E \ T : IsTree(T, N) =>
                             \A y \in T : x[2] \notin ComponentOf(T \ {y}, N, x[1]) => w[y][1] <= w[x][1],
                         "random:minimum-weight")
                  \cup NameIf(\A x \in E : LET r == w[x][2] - 250000 * Sur(e, x) IN r >= -1 /\ r <= 1000000,
                              "random:surcharged-once-per-differing-region"))
       \* surcharges in steps of at least one: fewest surcharged edges
       \cup (IF e.steps = 1
             THEN NameIf(\A s \in big : LET F == {x \in E : Sur(e, x) <= s}
                                        IN Cardinality(T \cap F) = Rank(F, N), "random:keeps-regions-whole")
             ELSE {})
\* lo, hi: bounds of the probability in millionths
JudgeUniform(e) ==
    LET E == ToSet(e.E) N == 1..e.n
        Out == {ToSet(o[1]) : o \in ToSet(e.outs)}
        All == SpanningTrees(E, N)
        c == Cardinality(All)
    IN NameIf(Out \subseteq All, "uniform:spanning-tree")
       \cup NameIf(\A o \in ToSet(e.outs) : o[2] * c <= 1000000 + c /\ 1000000 <= o[3] * c + c, "uniform:equal-odds")
       \cup NameIf(e.left * c >= 900000 \/ All \subseteq Out, "uniform:every-tree")
JudgeKruskal(e) ==
    LET E == ToSet(e.E) N == 1..e.n m == Cardinality(E)
        Orders == {s \in [1..m -> E] : \A i, j \in 1..m : i # j => s[i] # s[j]}
        tr == [s \in Orders |-> Kruskal(s, N, {})]
        cnt(T) == Cardinality({s \in Orders : tr[s] = T})
        f == Cardinality(Orders)
    IN NameIf({ToSet(o[1]) : o \in ToSet(e.outs)} = {tr[s] : s \in Orders}, "random:trees-of-random-orders")
       \cup NameIf(\A o \in ToSet(e.outs) : o[2] * f = o[3] * cnt(ToSet(o[1])), "random:odds-of-random-orders")
JudgeTree(e) == NameIf(ToSet(e.T) \subseteq ToSet(e.E) /\ IsTree(ToSet(e.T), 1..e.n), "uniform:spanning-tree")
JudgeCount(e) ==
    LET E == ToSet(e.E)
        D(d) == Level(e.a, d)
    IN NameIf(\A d \in 1..Len(e.val) : Connected(E, D(d)) => e.val[d] = Cardinality(SpanningTrees(Induced(E, D(d)), D(d))),
              "number-of-spanning-trees")
\* ---- C24 ------------------------------------------------------------------
\* cuts: <<edge, rank of the weight, rank of the edge's weight in the tree, subset>>;
\* regions: per kind, the region of every node (0: none); S: the nodes split off
JudgeChoice(e) ==
    LET N == ToSet(e.N) S == ToSet(e.S)
        C == [i \in DOMAIN e.cuts |->
                [cross |-> {r \in DOMAIN e.regions : e.regions[r][e.cuts[i][1][1]] # e.regions[r][e.cuts[i][1][2]]},
                 w |-> e.cuts[i][2]]]
        Taken == {i \in DOMAIN e.cuts : S \in {ToSet(e.cuts[i][4]), N \ ToSet(e.cuts[i][4])}}
        Cs == {C[i] : i \in DOMAIN C}
    IN NameIf(\A i \in DOMAIN e.cuts : e.cuts[i][3] = -1 \/ e.cuts[i][2] = e.cuts[i][3], "choice:cut-has-the-weight-of-its-edge")
       \* the tree is of minimum weight: exchanging an edge of it saves less than the random part
       \cup NameIf(e.drawn = 0 \/ \A x \in ToSet(e.T) :
                      LET A == ComponentOf(ToSet(e.T) \ {x}, N, x[1])
                      IN \A y \in ToSet(e.E) : (y[1] \in N /\ y[2] \in N /\ (y[1] \in A) # (y[2] \in A)) => Sur(e, x) - Sur(e, y) < 4,
                   "choice:tree-drawn-with-the-surcharges")
       \cup NameIf(Taken # {}, "choice:takes-a-balanced-cut")
       \cup NameIf(e.has = 0 \/ Taken = {} \/ \E i \in Taken : C[i] \in Preferred(e.sur, Cs), "choice:region-bridging-cut-preferred")
\* outs: <<number of the cut, numerator, denominator>>; all balanced cuts have equal odds
JudgeOdds(e) ==
    LET T == ToSet(e.T)
        want == Balanced(T, e.pop, e.t, e.eps)
        out == {<<o[1][1], o[1][2]>> : o \in ToSet(e.outs)}
    IN NameIf(out = want, "choice:every-balanced-cut")
       \cup NameIf(\A o \in ToSet(e.outs) : o[2] * Cardinality(want) = o[3], "choice:equal-odds-without-regions")
JudgeOwn(e) ==
    LET N == ToSet(e.N) S == ToSet(e.S) X == ToSet(e.want) IN
    NameIf(S \in {X, N \ X}, "choice:own-rule-decides")
Judge(e) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE CASE e.k = "cuts" -> JudgeCuts(e)
           [] e.k = "split" -> JudgeSplit(e)
           [] e.k = "random" -> JudgeRandom(e)
           [] e.k = "uniform" -> JudgeUniform(e)
           [] e.k = "kruskal" -> JudgeKruskal(e)
           [] e.k = "tree" -> JudgeTree(e)
           [] e.k = "count" -> JudgeCount(e)
           [] e.k = "choice" -> JudgeChoice(e)
           [] e.k = "odds" -> JudgeOdds(e)
           [] e.k = "own" -> JudgeOwn(e)
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

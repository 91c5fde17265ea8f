------------------------------ MODULE PlanTrace ------------------------------
(* Judges histories of plans recorded from the implementation.               *)
(* An episode has the graphs gs it uses and the events ev.  The state keeps  *)
(* the plans as the specification knows them from the requested operations:  *)
(* graph, number of districts, assignment and the plan flipped from.         *)
(* What an event claims to have observed is compared with what the           *)
(* definitions say; bad holds the names of the clauses that do not hold.     *)
EXTENDS PlanDefs, Json, IOUtils

Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, plans, memo, bad
vars == <<ep, l, plans, memo, bad>>

Ev == Eps[ep].ev
Gr(p) == Eps[ep].gs[plans[p].g]
Asg(p) == plans[p].a
NameIf(c, name) == IF c THEN {} ELSE {name}
AllD(p) == 1..plans[p].k
Norm(s) == {Edge(s[i][1], s[i][2]) : i \in DOMAIN s}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
\* s lists exactly the set S, every element once
Lists(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
ListsEdges(s, S) == Norm(s) = S /\ Len(s) = Cardinality(S)
\* the observed list of node/district pairs is the assignment a
IsAsg(s, a) == Len(s) = Len(a) /\ \A v \in DOMAIN a : \E i \in DOMAIN s : s[i] = <<v, a[v]>>

\* ---- structure (C01) ----------------------------------------------------------
JudgeObs(e) ==
    LET p == e.p
        a == Asg(p)
        k == plans[p].k
        E == EdgeSet(Gr(p))
    IN  NameIf(IsAsg(e.map, a), "assignment-mapping")
        \cup NameIf(Len(e.parts) = k /\ \A d \in 1..k : Lists(e.parts[d], Level(a, d)), "parts-are-level-sets")
        \cup NameIf(e.nparts = k, "districts-remain")
        \cup NameIf(\A d \in DOMAIN e.sub : /\ Lists(e.sub[d].nodes, Level(a, d))
                                            /\ ListsEdges(e.sub[d].edges, Induced(E, Level(a, d))), "district-subgraphs")
        \cup NameIf(\A i \in DOMAIN e.views : IsAsg(e.views[i], a), "exported-forms")
        \cup NameIf(e.len = Len(a), "assignment-length")
        \cup NameIf(Lists(e.keys, DOMAIN a), "assignment-keys")
        \cup NameIf(\A i \in DOMAIN e.cross : e.cross[i] = <<Gr(p).E[i], IF Crosses(a, Gr(p).E[i]) THEN 1 ELSE 0>>, "crosses-parts")
        \cup NameIf(e.parent = -1 \/ e.parent = plans[p].par, "parent-link")
        \cup NameIf(e.flips = <<>> \/ plans[p].f = <<>> \/ ToSet(e.flips) = ToSet(plans[p].f), "flips-recorded")

JudgeFlip(e) == NameIf(e.ok = 1, "flip-succeeds") \cup NameIf(e.fresh = 1, "flip-returns-new-plan")
JudgeNew(e) == NameIf(e.ok = 1, "valid-assignment-accepted")
\* An assignment that must be refused
JudgeRefuse(e) == NameIf(e.got # "accepted", "bad-assignment-refused")
                  \cup NameIf(e.got = "accepted" \/ e.got \in ToSet(e.want), "refused-with-documented-error")

\* Assignments by themselves: each shows what was asked of it, whatever was done to its copies
JudgeAsg(e) == NameIf(\A i \in DOMAIN e.seen : IsAsg(e.seen[i].map, e.seen[i].want) /\ e.seen[i].len = e.n, "assignment-mapping")
               \cup NameIf(\A i \in DOMAIN e.seen : \A d \in 1..e.kk : Lists(e.seen[i].parts[d], Level(e.seen[i].want, d)), "assignment-parts")

\* ---- updater values -------------------------------------------------------------
\* share c/t as the fraction q = <<num, den>>
ShareIs(q, c, t) == IF t <= 0 THEN q[2] = 0 ELSE q[2] # 0 /\ q[1] * t = c * q[2]

JudgeElection(e) ==
    LET p == e.p G == Gr(p) a == Asg(p) ps == e.ps
        k == plans[p].k
        V == [j \in DOMAIN ps |-> [d \in 1..k |-> Votes(G, a, ps, j, d)]]
        T == [d \in 1..k |-> SumOver(DOMAIN ps, LAMBDA j : V[j][d])]
        VT == [j \in DOMAIN ps |-> SumOver(1..k, LAMBDA d : V[j][d])]
        TT == SumOver(1..k, LAMBDA d : T[d])
        W(j, d) == \A o \in DOMAIN ps : o = j \/ V[j][d] > V[o][d]
        \* shares of the first party, times 10^6
        S == [d \in 1..k |-> IF T[d] > 0 THEN Millionths(V[1][d], T[d]) ELSE 0]
        mean == SumOver(1..k, LAMBDA d : S[d]) \div k
        srt == SortSeq(S, <)
        \* shares in 1024ths, if they are whole: the districts strictly above the mean
        D(d) == (1024 * V[1][d]) \div T[d]
        exactAbove == Cardinality({d \in 1..k : k * D(d) > SumOver(1..k, D)})
        med == IF k % 2 = 1 THEN srt[(k + 1) \div 2] ELSE (srt[k \div 2] + srt[k \div 2 + 1]) \div 2
        third == srt[((2 * k + 3) \div 6) + 1]
        Near(x, y) == Abs(x - y) <= 8
        \* twice the wasted votes
        waste(d) == IF V[1][d] > V[2][d] THEN <<2 * V[1][d] - T[d], 2 * V[2][d]>>
                    ELSE <<2 * V[1][d], 2 * V[2][d] - T[d]>>
        overall == Millionths(VT[1], TT)
        desc == [i \in 1..k |-> srt[k + 1 - i]]
        sv == [i \in 1..k |-> overall - desc[i] + 500000]
        gini == SumOver(1..k, LAMBDA i : Abs(sv[i] - (1000000 - sv[k + 1 - i]))) \div k
        allCast == \A d \in 1..k : T[d] > 0
    IN  NameIf(\A j \in DOMAIN ps : e.counts[j] = V[j], "votes-per-district")
        \cup NameIf(e.totals = T, "total-votes-per-district")
        \cup NameIf(\A j \in DOMAIN ps : \A d \in 1..k : ShareIs(e.shares[j][d], V[j][d], T[d]), "share-per-district")
        \cup NameIf(\A j \in DOMAIN ps : \A d \in 1..k : e.count1[j][d] = V[j][d], "single-district-count")
        \cup NameIf(\A j \in DOMAIN ps : \A d \in 1..k : ShareIs(e.share1[j][d], V[j][d], T[d]), "single-district-share")
        \cup NameIf(\A j \in DOMAIN ps : e.state[j] = VT[j], "statewide-count")
        \cup NameIf(TT <= 0 \/ \A j \in DOMAIN ps : ShareIs(e.stateshare[j], VT[j], TT), "statewide-share")
        \cup NameIf(e.cast = TT, "statewide-total")
        \cup NameIf(\A j \in DOMAIN ps : \A d \in 1..k : e.won[j][d] = (IF W(j, d) THEN 1 ELSE 0), "district-won")
        \cup NameIf(\A j \in DOMAIN ps : e.seats[j] = <<Cardinality({d \in 1..k : W(j, d)}), Cardinality({d \in 1..k : W(j, d)})>>, "seats")
        \cup (IF ~allCast THEN {} ELSE
              NameIf(e.mm = MISSINGV \/ Near(e.mm, med - mean), "mean-median")
              \cup NameIf(e.mt = MISSINGV \/ Near(e.mt, third - mean), "mean-thirdian")
              \cup NameIf(e.bias = MISSINGV \/ \E x \in IF e.exact = 1 THEN {exactAbove}
                                                   ELSE Cardinality({d \in 1..k : S[d] > mean + 6})..Cardinality({d \in 1..k : S[d] > mean - 6}) :
                              Near(e.bias, (1000000 * x) \div k - 500000), "partisan-bias")
              \cup NameIf(e.gini = MISSINGV \/ Near(e.gini, gini), "partisan-gini")
              \cup NameIf(Len(ps) # 2 \/ e.eg = MISSINGV \/
                          LET num == SumOver(1..k, LAMBDA d : waste(d)[2] - waste(d)[1])
                          IN \* num / (2 * TT), times 10^5
                             Abs(e.eg * 2 * TT - 100000 * num) <= 2 * TT * 2, "efficiency-gap"))

\* County reports: for each county <<county, split, nodes, districts>>
CountyOK(e, m) ==
    LET p == e.p G == Gr(p) a == Asg(p) c == e.c
        par == plans[p].par
        first == m[p].had[c]    \* was the parent there when the value was first asked for?
        Status(r) == IF ~IsSplit(G, a, c, r) THEN {0}
                     ELSE IF par = 0 THEN {2}
                     ELSE LET fromParent == IF IsSplit(G, Asg(par), c, r) THEN 2 ELSE 1
                          IN IF first = 1 THEN {fromParent} ELSE {fromParent, 2}
    IN  NameIf(Lists([i \in DOMAIN e.val |-> e.val[i][1]], Regions(G, c)), "every-county-reported")
        \cup UNION {LET x == e.val[i] r == x[1] IN
               IF r \notin Regions(G, c) THEN {"unknown-county"} ELSE
               NameIf(Lists(x[3], RegionNodes(G, c, r)), "county-nodes")
               \cup NameIf(Lists(x[4], DistrictsMet(G, a, c, r)), "county-districts")
               \cup NameIf(x[2] \in Status(r), "county-split-status") : i \in DOMAIN e.val}
        \* the rule refusing new splits agrees with the report
        \cup NameIf(e.refuse = -1 \/ e.refuse = (IF \E i \in DOMAIN e.val : e.val[i][2] = 1 THEN 0 ELSE 1), "refuse-new-splits")

JudgeRead(e, m) ==
    LET p == e.p G == Gr(p) a == Asg(p) k == plans[p].k E == EdgeSet(G) IN
    CASE e.u = "cut" -> NameIf(ListsEdges(e.val, CutEdges(E, a)), "cut-edges")
      [] e.u = "cutp" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : ListsEdges(e.val[d], CutEdgesOf(E, a, d)), "cut-edges-by-district")
      [] e.u = "tally" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : e.val[d] = TallyOf(G, a, e.cs, d), "district-sums")
                          \cup NameIf((\A d \in DOMAIN e.val : Abs(e.val[d]) < 10000000) /\ SumSeq(e.val) = GraphTotal(G, e.cs), "totals-add-up")
      [] e.u = "rim" -> NameIf(Lists(e.val, Rim(G)), "rim-nodes")
      [] e.u = "rimd" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : Lists(e.val[d], Level(a, d) \cap Rim(G)), "rim-nodes-by-district")
      [] e.u = "ext" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : e.val[d] = Exterior(G, a, d), "exterior-boundary")
      [] e.u = "int" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : e.val[d] = Interior(G, a, d), "interior-boundary")
      [] e.u = "per" -> NameIf(Len(e.val) = k /\ \A d \in 1..k : e.val[d] = Perimeter(G, a, d), "perimeter")
      \* Polsby-Popper / (4 pi) as a fraction; lengths and areas are in quarters
      [] e.u = "pp" -> NameIf(Len(e.val) = k /\ \A d \in 1..k :
                            LET P == Perimeter(G, a, d) A == TallyOf(G, a, e.cs, d) IN
                            IF P = 0 THEN e.val[d][2] = 0
                            ELSE e.val[d][2] # 0 /\ e.val[d][1] * P * P = 4 * A * e.val[d][2], "polsby-popper")
      \* Summaries of the scores x(d) = 4 A / P^2, in fixed point
      [] e.u = "sum" ->
            LET P(d) == Perimeter(G, a, d)
                A(d) == TallyOf(G, a, e.cs, d)
                x(d) == (400000 * A(d)) \div (P(d) * P(d))         \* 10^5 * score
                y(d) == (250 * P(d) * P(d)) \div A(d)              \* 10^3 / score
                sx == SumOver(1..k, x)
                sy == SumOver(1..k, y)
                s2 == SumOver(1..k, LAMBDA d : LET z == x(d) \div 100 IN z * z)
            IN IF \E d \in 1..k : P(d) = 0 \/ A(d) <= 0 THEN {"harness-read-undefined-summary"} ELSE
               NameIf(Abs(e.val[1] - sx) <= k + 1, "sum-of-scores")
               \cup NameIf(Abs(e.val[2] - sy) <= k + 1, "sum-of-reciprocals")
               \cup NameIf(Abs(e.val[3] * e.val[3] - s2) <= 4 * (e.val[3] + 1) * k + s2 \div 100, "euclidean-norm")
               \* harmonic mean h: h * (sum of reciprocals) = k
               \cup NameIf(Abs((e.val[4] * (sy \div 10)) \div 100 - 1000 * k) <= 20 * k + (1000 * k) \div (e.val[4] + 1) + e.val[4] \div 100 + (4000 * k) \div (sy + 1), "harmonic-mean")
      [] e.u = "elec" -> JudgeElection(e)
      [] e.u = "cty" -> CountyOK(e, m)
      [] e.u = "regs" -> NameIf(Len(e.val) = Len(e.cs) /\ \A i \in DOMAIN e.cs : e.val[i] = Cardinality(CutRegions(G, a, e.cs[i])), "regions-with-inner-cut")
      [] e.u = "loc" ->
            LET c == e.c IN
            NameIf(e.val[1] \in {MISSINGV, LocParts(G, a, c)}, "locality-district-pairs")
            \cup NameIf(e.val[2] = MISSINGV \/ e.val[2] = LocPieces(G, a, c), "locality-pieces")
            \cup NameIf(e.val[3] \in {MISSINGV, Cardinality(InsideCuts(G, a, c))}, "naked-boundary")
            \cup NameIf(e.val[4] \in {MISSINGV, Cardinality(SplitRegions(G, a, c))}, "split-localities")
            \cup NameIf(e.val[5] = MISSINGV \/ Abs(e.val[5] * G.n - ShannonN(G, a, c)) <= 3 * G.n, "shannon-entropy")
            \cup NameIf(e.val[6] = MISSINGV \/ Abs(e.val[6] - PowerEnt(G, a, c, e.two)) <= 2 * G.n * Cardinality(Regions(G, c)) * k, "power-entropy")
      \* What flowed between the districts since the plan flipped from
      [] e.u \in {"nflow", "eflow"} ->
            IF plans[p].par = 0 THEN NameIf(e.root = 1, "harness-flow-of-root") ELSE
            LET b == Asg(plans[p].par)
                Has(x, d) == IF e.u = "nflow" THEN Level(x, d) ELSE CutEdgesOf(E, x, d)
                Is(s, S) == IF e.u = "nflow" THEN Lists(s, S) ELSE ListsEdges(s, S)
            IN NameIf(e.odd = 0, "flows-of-known-districts")
               \cup NameIf(\A d \in 1..k : Is(e.val[d].new, Has(a, d) \ Has(b, d)), IF e.u = "nflow" THEN "nodes-flowing-in" ELSE "cut-edges-flowing-in")
               \cup NameIf(\A d \in 1..k : Is(e.val[d].old, Has(b, d) \ Has(a, d)), IF e.u = "nflow" THEN "nodes-flowing-out" ELSE "cut-edges-flowing-out")
      \* Updaters of a user that follow the flows
      [] e.u = "held" -> NameIf(\A d \in 1..k : Lists(e.val[d].has, Level(a, d)), "node-flow-updater")
                         \cup NameIf(\A d \in 1..k : e.val[d].ok = 1, "node-flow-updater-told-twice")
      [] e.u = "hcut" -> NameIf(\A d \in 1..k : ListsEdges(e.val[d].has, CutEdgesOf(E, a, d)), "edge-flow-updater")
                         \cup NameIf(\A d \in 1..k : e.val[d].ok = 1, "edge-flow-updater-told-twice")
      \* A user-defined updater that counts the steps from the initial plan
      [] e.u = "step" -> NameIf(m[p].clean = 0 \/ e.val = plans[p].depth, "ancestry-value")
      \* How often an updater was computed for this plan, and whether a
      \* repeated read returned the same value
      [] e.u = "count" -> NameIf(e.val <= 1, "computed-at-most-once")
      [] e.u = "same" -> NameIf(e.val = 1, "value-stays-the-same")
      [] e.u = "keys" -> NameIf(e.val = 1, "updater-names")

Judge(e, m) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k = "new" -> JudgeNew(e)
                   [] e.k = "flip" -> JudgeFlip(e)
                   [] e.k = "obs" -> JudgeObs(e)
                   [] e.k = "read" -> JudgeRead(e, m)
                   [] e.k = "drop" -> {}
                   [] e.k = "refuse" -> JudgeRefuse(e)
                   [] e.k = "asg" -> JudgeAsg(e)

\* memo: whether the link to the plan flipped from (had), or to every ancestor
\* (clean), was still there when the value was first asked for; -1: not yet asked
RECURSIVE Linked(_)
Linked(p) == plans[p].par = 0 \/ (memo[p].cut = 0 /\ Linked(plans[p].par))
Bit(c) == IF c THEN 1 ELSE 0
TouchCty(p, c) == IF memo[p].had[c] # -1 THEN memo
                  ELSE [memo EXCEPT ![p].had[c] = Bit(memo[p].cut = 0)]
TouchStep(p) == IF memo[p].clean # -1 THEN memo ELSE [memo EXCEPT ![p].clean = Bit(Linked(p))]

Init == /\ ep \in 1..Len(Eps)
        /\ l = 1
        /\ plans = <<>>
        /\ memo = <<>>
        /\ bad = {}

FreshMemo == [had |-> <<-1, -1>>, cut |-> 0, clean |-> -1]
Step == /\ bad = {}
        /\ l <= Len(Ev)
        /\ LET e == Ev[l] IN
           /\ l' = l + 1
           /\ ep' = ep
           /\ plans' = CASE e.k = "new" ->
                              Append(plans, [g |-> e.g, k |-> e.kk, a |-> e.a, par |-> 0, f |-> <<>>, depth |-> 0])
                         [] e.k = "flip" ->
                              Append(plans, [g |-> plans[e.p].g, k |-> plans[e.p].k,
                                             a |-> Flipped(plans[e.p].a, PairsToFun(e.f)),
                                             par |-> e.p, f |-> e.f, depth |-> plans[e.p].depth + 1])
                         [] OTHER -> plans
           /\ memo' = CASE e.k \in {"new", "flip"} -> Append(memo, FreshMemo)
                        [] e.k = "drop" -> [memo EXCEPT ![e.p].cut = 1]
                        [] e.k = "read" -> (IF e.exc # "" THEN memo ELSE IF e.u = "cty" THEN TouchCty(e.p, e.c)
                                            ELSE IF e.u = "step" THEN TouchStep(e.p) ELSE memo)
                        [] OTHER -> memo
           /\ bad' = Judge(e, memo')
Next == Step
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

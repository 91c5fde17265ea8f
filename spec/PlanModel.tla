------------------------------ MODULE PlanModel ------------------------------
(* How plans and their updaters are kept up to date: every plan is made from *)
(* its parent by flows of nodes and of cut edges, and an updater's value is  *)
(* computed when it is first read, from the parent's value if the parent is  *)
(* still linked and from scratch otherwise.  TLC explores every history of   *)
(* flips, reads and dropped links of a small graph; the invariants say that  *)
(* what such a plan reports is what the definitions in PlanDefs say.         *)
EXTENDS PlanDefs

CONSTANTS Shape, K, MaxPlans,
          Kinds,       \* which updaters: subset of {"cut", "cutp", "tally", "ext", "int", "cty"}
          Drops,       \* whether parent links may be dropped
          MaxFlip,     \* nodes moved by one flip
          Bug          \* "none", or the name of a seeded mistake (negative controls)

N == IF Shape \in {"path3", "tri"} THEN 3 ELSE 4
EE == CASE Shape = "path3" -> <<<<1, 2>>, <<2, 3>>>>
        [] Shape = "tri" -> <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
        [] Shape = "square" -> <<<<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 4>>>>
        [] Shape = "paw" -> <<<<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 4>>>>
        [] Shape = "island" -> <<<<1, 2>>, <<2, 3>>>>
Graph == [n |-> N, E |-> EE,
          w |-> [i \in DOMAIN EE |-> 2 ^ (i - 1)],
          rim |-> [v \in 1..N |-> IF v = N THEN 0 ELSE 1],
          bp |-> [v \in 1..N |-> 3 ^ (v - 1)],
          \* distinct powers: every set of nodes has its own sum
          cols |-> <<[v \in 1..N |-> IF v = 1 THEN NANV ELSE 2 ^ v]>>,
          cty |-> <<[v \in 1..N |-> IF v <= 2 THEN 1 ELSE 2]>>]
E == EdgeSet(Graph)
Dist == 1..K

VARIABLE plans
vars == <<plans>>

None == <<>>      \* a cached value v is kept as <<v>>
Got(p, kind) == plans[p].cache[kind][1]
Has(ps, p, kind) == Len(ps[p].cache[kind]) > 0

\* ---- making a plan from its parent ----------------------------------------------
Moved(a, f) == {v \in DOMAIN f : f[v] # a[v]}
FlowIn(a, f, d) == {v \in Moved(a, f) : f[v] = d}
FlowOut(a, f, d) == {v \in Moved(a, f) : a[v] = d}
\* parts are kept by flows, not recomputed
NewParts(pl, f) == [d \in Dist |-> (pl.parts[d] \ FlowOut(pl.a, f, d)) \cup FlowIn(pl.a, f, d)]
Child(p, f) == [a |-> Flipped(plans[p].a, f),
                parts |-> NewParts(plans[p], f),
                par |-> p, from |-> p, f |-> f,
                cache |-> [kd \in Kinds |-> None]]

\* edges at the flipped nodes, and what changes about them
Touched(f) == {e \in E : e[1] \in DOMAIN f \/ e[2] \in DOMAIN f}
Ends(a, e) == {a[e[1]], a[e[2]]}
EdgeIn(a, b, f, d) ==
    {e \in Touched(f) : /\ Crosses(b, e) /\ d \in Ends(b, e)
                        /\ IF Crosses(a, e) THEN d \notin Ends(a, e) /\ Bug # "still-cut" ELSE TRUE}
EdgeOut(a, b, f, d) ==
    {e \in Touched(f) : /\ Crosses(a, e) /\ d \in Ends(a, e)
                        /\ IF Crosses(b, e) THEN d \notin Ends(b, e) /\ Bug # "still-cut" ELSE TRUE}

\* ---- the updaters ---------------------------------------------------------------
\* from scratch
Fresh(pl, kind) ==
    CASE kind = "cut" -> CutEdges(E, pl.a)
      [] kind = "cutp" -> [d \in Dist |-> CutEdgesOf(E, pl.a, d)]
      [] kind = "tally" -> [d \in Dist |-> TallyOf(Graph, pl.a, <<1>>, d)]
      [] kind = "ext" -> [d \in Dist |-> Exterior(Graph, pl.a, d)]
      [] kind = "int" -> [d \in Dist |-> Interior(Graph, pl.a, d)]
      [] kind = "cty" -> [r \in Regions(Graph, 1) |-> IF IsSplit(Graph, pl.a, 1, r) THEN 2 ELSE 0]
Weight(S) == SumOver({i \in DOMAIN EE : EE[i] \in S}, LAMBDA i : Graph.w[i])
NodeVal(v) == IF Bug = "nan-flows" /\ Graph.cols[1][v] = NANV THEN NANV ELSE NodeSum(Graph, <<1>>, v)
\* from the parent's value
Incr(old, pl, kind, prev) ==
    LET a == old.a b == pl.a f == pl.f
        In(d) == FlowIn(a, f, d)
        Out(d) == FlowOut(a, f, d)
    IN CASE kind = "cut" ->
              LET new == {e \in Touched(f) : Crosses(b, e)}
                  obsolete == {e \in Touched(f) : Crosses(a, e) /\ ~Crosses(b, e)}
              IN (prev \cup new) \ (IF Bug = "no-obsolete" THEN {} ELSE obsolete)
         [] kind = "cutp" -> [d \in Dist |-> (prev[d] \cup EdgeIn(a, b, f, d)) \ EdgeOut(a, b, f, d)]
         [] kind = "tally" ->
              [d \in Dist |-> prev[d] + SumOver(In(d), NodeVal) - SumOver(Out(d), NodeVal)]
         [] kind = "ext" ->
              [d \in Dist |-> prev[d] + SumOver(In(d) \cap Rim(Graph), LAMBDA v : Graph.bp[v])
                                      - SumOver(Out(d) \cap Rim(Graph), LAMBDA v : Graph.bp[v])]
         [] kind = "int" ->
              [d \in Dist |-> prev[d] + Weight(EdgeIn(a, b, f, d)) - Weight(EdgeOut(a, b, f, d))]
         [] kind = "cty" ->
              [r \in Regions(Graph, 1) |->
                  IF ~IsSplit(Graph, b, 1, r) THEN 0
                  ELSE IF prev[r] = 0 \/ (Bug = "forgets-old-split" /\ prev[r] = 1) THEN 1 ELSE 2]

\* Reading fills the caches of the plan and, first, of its linked ancestors
RECURSIVE Eval(_, _, _)
Eval(ps, p, kind) ==
    IF Has(ps, p, kind) THEN ps
    ELSE IF ps[p].par = 0
         THEN [ps EXCEPT ![p].cache[kind] = <<Fresh(ps[p], kind)>>]
         ELSE LET q == ps[p].par
                  ps2 == Eval(ps, q, kind)
                  prev == IF Bug = "stale-parent" /\ ps2[q].par # 0 /\ Has(ps2, ps2[q].par, kind)
                          THEN ps2[ps2[q].par].cache[kind][1] ELSE ps2[q].cache[kind][1]
              IN [ps2 EXCEPT ![p].cache[kind] = <<Incr(ps2[q], ps2[p], kind, prev)>>]

\* ---- histories --------------------------------------------------------------------
Onto(a) == \A d \in Dist : \E v \in 1..N : a[v] = d
FlipSets == {f \in UNION {[S -> Dist] : S \in SUBSET (1..N)} : Cardinality(DOMAIN f) <= MaxFlip}
Root(a) == [a |-> a, parts |-> [d \in Dist |-> Level(a, d)], par |-> 0, from |-> 0,
            f |-> <<>>, cache |-> [kd \in Kinds |-> None]]
Init == \E a \in [1..N -> Dist] : Onto(a) /\ plans = <<Root(a)>>
Flip(p, f) == /\ Len(plans) < MaxPlans
              /\ plans' = Append(plans, Child(p, f))
Read(p, kind) == /\ ~Has(plans, p, kind)
                 /\ plans' = Eval(plans, p, kind)
Drop(p) == /\ Drops
           /\ plans[p].par # 0
           /\ plans' = [plans EXCEPT ![p].par = 0]
Next == \/ \E p \in DOMAIN plans : \E f \in FlipSets : Flip(p, f)
        \/ \E p \in DOMAIN plans : \E kd \in Kinds : Read(p, kd)
        \/ \E p \in DOMAIN plans : Drop(p)

\* ---- what is promised -----------------------------------------------------------
\* C01: the sets of nodes are the level sets of the assignment
PartsExact == \A p \in DOMAIN plans : \A d \in Dist : plans[p].parts[d] = Level(plans[p].a, d)
\* C01: a flip moves the flipped nodes and nothing else
FlipExact == \A p \in DOMAIN plans : plans[p].from # 0 =>
    \A v \in 1..N : plans[p].a[v] = IF v \in DOMAIN plans[p].f THEN plans[p].f[v] ELSE plans[plans[p].from].a[v]
\* C02, C03, C04: what is reported is what the definitions say, after any history
ValuesExact == \A p \in DOMAIN plans : \A kd \in Kinds \ {"cty"} :
    Has(plans, p, kd) => Got(p, kd) = Fresh(plans[p], kd)
\* C16: newly split means: split now, and not split in the plan flipped from
CountiesExact == \A p \in DOMAIN plans : "cty" \in Kinds /\ Has(plans, p, "cty") =>
    \A r \in Regions(Graph, 1) :
        LET now == IsSplit(Graph, plans[p].a, 1, r)
            was == plans[p].from # 0 /\ IsSplit(Graph, plans[plans[p].from].a, 1, r)
            x == Got(p, "cty")[r]
        IN /\ (x = 0) <=> ~now
           /\ x = 1 => now /\ ~was
           /\ x = 2 => was \/ plans[p].par = 0
\* C03: nothing is lost or counted twice
TotalsConserved == \A p \in DOMAIN plans : "tally" \in Kinds /\ Has(plans, p, "tally") =>
    SumOver(Dist, LAMBDA d : Got(p, "tally")[d]) = GraphTotal(Graph, <<1>>)
\* C05: a value, once computed, never changes; plans never change
Frozen == [][\A p \in DOMAIN plans :
                /\ plans'[p].a = plans[p].a /\ plans'[p].parts = plans[p].parts
                /\ \A kd \in Kinds : Has(plans, p, kd) => plans'[p].cache[kd] = plans[p].cache[kd]]_vars
Spec == Init /\ [][Next]_vars
==============================================================================

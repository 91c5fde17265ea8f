------------------------------ MODULE RecomTrace ------------------------------
(* Judges recorded ReCom steps.  An episode has n, E, k, pop (quarters), and *)
(* each event its target (quarters) and tolerance (sixteenths).              *)
EXTENDS RecomDefs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
E == ToSet(Eps[ep].E)
K == Eps[ep].k
pop == Eps[ep].pop
NameIf(c, name) == IF c THEN {} ELSE {name}
\* pairs drawn, with exact odds
JudgePairs(e) ==
    LET out == {<<o[1], o[2]>> : o \in ToSet(e.outs)} IN
    NameIf(e.all = 0 \/ {{p[1], p[2]} : p \in out} = AdjacentPairs(E, e.a), "adjacent-pairs")
    \cup NameIf(\A o \in ToSet(e.outs) : o[3] * Cardinality(CutEdges(E, e.a)) = o[4] * Cardinality(PairCuts(E, e.a, o[1], o[2])),
                "pairs-in-proportion-to-cut-edges")
\* fails: pairs that cannot be split
JudgeReselect(e) ==
    LET Adj == AdjacentPairs(E, e.a)
        F == {ToSet(p) : p \in ToSet(e.fails)}
        tried == [i \in DOMAIN e.tried |-> ToSet(e.tried[i])]
    IN NameIf(ToSet(tried) \subseteq Adj, "tries-adjacent-pairs")
       \cup NameIf(Len(tried) <= Cardinality(Adj), "no-pair-twice")
       \cup IF Adj \subseteq F
            THEN NameIf(e.res = "MetagraphError", "gives-up-with-documented-error")
                 \cup NameIf(ToSet(tried) = Adj, "gives-up-after-every-pair")
            ELSE NameIf(e.res = "split" /\ tried # <<>> /\ tried[Len(tried)] \notin F, "goes-on-to-another-pair")
                 \cup NameIf(\A i \in 1..(Len(tried) - 1) : tried[i] \in F, "goes-on-only-after-failure")
JudgeStep(e) ==
    IF e.res = "plan" THEN
        NameIf(\A v \in DOMAIN e.a : e.b[v] \in 1..K, "known-labels")
        \cup NameIf(ValidRecom(E, e.a, e.b, pop, e.t, e.eps), "one-adjacent-pair-resplit-into-valid-halves")
        \cup NameIf(e.kept = 1, "start-plan-unchanged")
    ELSE LET Can == {p \in AdjacentPairs(E, e.a) :
                        LET S == UNION {Level(e.a, d) : d \in p}
                        IN Splits(Induced(E, S), S, pop, e.t, e.eps, FALSE) # {}}
         IN NameIf(e.res \in ToSet(e.allowed), "documented-error")
            \cup NameIf(e.sure = 0 \/ (IF e.res = "MetagraphError" THEN Can = {} ELSE Can # AdjacentPairs(E, e.a) \/ Can = {}),
                        "splits-when-possible")
\* reversible step: outs <<assignment, millionths>>, err: millionths of the error
Near(x, y) == Abs(x - y) <= 4 + (Eps[ep].tol)
Halves(b, p) == {Level(b, d) : d \in p}
JudgeReversible(e) ==
    LET a == e.a
        Outs == {o[1] : o \in ToSet(e.outs)}
        P(b) == LET o == CHOOSE x \in ToSet(e.outs) : x[1] = b IN o[2]
        Moved == {b \in Outs : b # a}
        PairOf(b) == {a[v] : v \in {u \in DOMAIN a : a[u] # b[u]}} \cup {b[v] : v \in {u \in DOMAIN a : a[u] # b[u]}}
        Adj == AdjacentPairs(E, a)
        S(p) == UNION {Level(a, d) : d \in p}
        \* every way to split the districts p in two good halves, as {A, B}
        Goods(p) == {{A, S(p) \ A} : A \in Splits(Induced(E, S(p)), S(p), pop, e.t, e.eps, FALSE)}
        \* expected probability of the halves h of the pair p, in millionths
        Want(p, h) == LET A == CHOOSE x \in h : TRUE
                          B == CHOOSE x \in h : x # A
                          w == Ways(E, S(p), A, B, pop, e.t, e.eps, e.M)
                      IN Millionths(2 * w, K * K * e.M * Seam(E, A, B) * Tau(E, S(p)))
        Got(p, h) == SumOver({b \in Outs : /\ \A v \in DOMAIN a : a[v] \notin p => b[v] = a[v]
                                           /\ Halves(b, p) = h /\ b # a}, P)
    IN NameIf(\A b \in Moved : \E p \in Adj : /\ \A v \in DOMAIN a : a[v] \notin p => b[v] = a[v]
                                              /\ \A v \in S(p) : b[v] \in p
                                              /\ Halves(b, p) \in Goods(p), "self-loop-or-valid-split")
       \cup NameIf(\A p \in Adj : \A h \in Goods(p) :
                      \* halves equal to the present ones: either label order, one of them is the plan itself
                      IF h = Halves(a, p) THEN Got(p, h) <= Want(p, h) + 4 + Eps[ep].tol
                      ELSE Near(Got(p, h), Want(p, h)), "exact-transition-probability")
       \cup NameIf(LET Bad(p) == Millionths(2 * TooMany(E, S(p), pop, e.t, e.eps, e.M), K * K * Tau(E, S(p)))
                   IN Near(e.err, SumOver(Adj, Bad)), "more-than-M-balanced-edges-is-an-error")
       \cup NameIf(e.kept = 1, "start-plan-unchanged")
\* Spectral step: outs <<assignment, numerator, denominator>>; vec: for some pairs the vector x
\* (thousandths, all entries well away from 0) with the eigenvalue lam (thousandths)
JudgeSpectral(e) ==
    LET a == e.a
        Adj == AdjacentPairs(E, a)
        Outs == {o[1] : o \in ToSet(e.outs)}
        S(p) == UNION {Level(a, d) : d \in p}
        Ok(b, p) == /\ \A v \in DOMAIN a : IF a[v] \in p THEN b[v] \in p ELSE b[v] = a[v]
                    /\ \A d \in p : Level(b, d) # {}
        Of(p) == {o \in ToSet(e.outs) : o[1] # a /\ Ok(o[1], p)}
        cuts == Cardinality(CutEdges(E, a))
        Share(p) == LET q == CHOOSE q \in p \X p : {q[1], q[2]} = p IN Cardinality(PairCuts(E, a, q[1], q[2]))
        \* odds of the outcomes of a pair, in parts of cuts
        GotNum(p) == SumOver(Of(p), LAMBDA o : (o[2] * cuts * 2520) \div o[3])
        Nb(v, N) == {u \in N : Edge(u, v) \in E}
        Dg(v, N) == Cardinality(Nb(v, N))
        \* (L x)(v) = lam * x(v), with the degree on the right for the normalized operator
        Solves(r) == LET N == ToSet(r.S) i(v) == CHOOSE j \in DOMAIN r.S : r.S[j] = v
                         X(v) == r.x[i(v)] IN
            \A v \in N : LET lhs == 1000 * SumOver(Nb(v, N), LAMBDA u : X(v) - X(u))
                               rhs == r.lam * X(v) * (IF e.norm = 1 THEN Dg(v, N) ELSE 1)
                           IN Abs(lhs - rhs) <= 3000 * (Dg(v, N) + 1)
        Signs(r) == {{r.S[j] : j \in {i \in DOMAIN r.S : r.x[i] > 0}}, {r.S[j] : j \in {i \in DOMAIN r.S : r.x[i] < 0}}}
    IN NameIf(\A b \in Outs : \E p \in Adj : Ok(b, p), "spectral:one-adjacent-pair-resplit")
       \cup NameIf(e.kept = 1, "start-plan-and-graph-unchanged")
       \cup NameIf(e.rnd = 0 \/ e.norm = 1 \/ \A b \in Outs : \E p \in Adj : Ok(b, p) /\ \A d \in p : Connected(E, Level(b, d)), "spectral:halves-connected")
       \cup (IF e.all = 0 THEN {} ELSE
             NameIf(\A p \in Adj : IF a \in Outs THEN GotNum(p) <= 2520 * Share(p) ELSE Abs(GotNum(p) - 2520 * Share(p)) <= Cardinality(Outs),
                    "spectral:pairs-in-proportion-to-cut-edges"))
       \cup NameIf(\A i \in DOMAIN e.vec : Solves(e.vec[i]), "harness-vector-is-an-eigenvector")
       \cup NameIf(\A i \in DOMAIN e.vec : LET r == e.vec[i] p == ToSet(r.pair) IN
                      \A o \in Of(p) : Halves(o[1], p) = Signs(r), "spectral:split-by-sign-of-the-fiedler-vector")
       \cup NameIf(\A i \in DOMAIN e.vec : LET p == ToSet(e.vec[i].pair) IN
                      \A o \in Of(p) : \A d \in p : Connected(E, Level(o[1], d)), "spectral:halves-connected")
Judge(e) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE CASE e.k = "pairs" -> JudgePairs(e)
           [] e.k = "reselect" -> JudgeReselect(e)
           [] e.k = "step" -> JudgeStep(e)
           [] e.k = "reversible" -> JudgeReversible(e)
           [] e.k = "spectral" -> JudgeSpectral(e)
           [] e.k = "varied" -> NameIf(Cardinality(ToSet(e.seen)) > 1, "spectral:random-weights-vary-the-split")
           [] e.k = "revstep" -> NameIf(e.b = e.a \/ ValidRecom(E, e.a, e.b, pop, e.t, e.eps), "self-loop-or-valid-split")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

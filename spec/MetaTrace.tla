------------------------------- MODULE MetaTrace -------------------------------
(* Judges diversity statistics (stat: the plan passed on and what was         *)
(* reported) and one-flip neighbourhoods (near: the plan, the plans that      *)
(* satisfy the constraints among all single moves, and what was listed).      *)
EXTENDS Graphs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, plans, dists, bad
vars == <<ep, l, plans, dists, bad>>
Ev == Eps[ep].ev
K == Eps[ep].k
E == ToSet(Eps[ep].E)
NameIf(c, name) == IF c THEN {} ELSE {name}
DistrictsOf(x) == {Level(x, d) : d \in 1..K}
JudgeStat(e) ==
    LET ds == DistrictsOf(e.a) IN
    NameIf(e.same = 1, "run-passed-through-unchanged")
    \cup NameIf(e.steps = l - e.base, "steps-taken")
    \cup NameIf(e.plans = Cardinality(plans \cup {ds}), "distinct-plans")
    \cup NameIf(e.dists = Cardinality(dists \cup ds), "distinct-districts")
Moves(x) == {<<v, d>> \in (DOMAIN x) \X (1..K) : d # x[v] /\ \E e \in E : (e[1] = v /\ x[e[2]] = d) \/ (e[2] = v /\ x[e[1]] = d)}
Move(x, m) == [x EXCEPT ![m[1]] = m[2]]
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
JudgeNear(e) ==
    LET ok == {<<v[1], v[2]>> : v \in ToSet(e.valid)}
        want == Moves(e.a) \cap ok
        flips == {<<m[1], m[2]>> : m \in ToSet(e.flips)}
        vflips == {<<m[1], m[2]>> : m \in ToSet(e.vflips)}
    IN NameIf(flips = Moves(e.a), "all-flips-exact") \cup NameIf(NoDup(e.flips), "no-flip-twice")
       \cup NameIf(vflips = want, "valid-flips-exact") \cup NameIf(NoDup(e.vflips), "no-valid-flip-twice")
       \cup NameIf(ToSet(e.states) = {Move(e.a, m) : m \in want}, "neighbours-exact") \cup NameIf(NoDup(e.states), "no-neighbour-twice")
       \cup NameIf(e.degree = Cardinality(want), "degree-is-number-of-neighbours")
       \cup NameIf(e.kept = 1, "plan-unchanged")
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k = "stat" -> JudgeStat(e) [] e.k = "near" -> JudgeNear(e)
                   [] e.k = "done" -> NameIf(e.n = e.want, "every-plan-passed-on")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ plans = {} /\ dists = {} /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ IF Ev[l].k = "stat" /\ bad' = {} THEN plans' = plans \cup {DistrictsOf(Ev[l].a)} /\ dists' = dists \cup DistrictsOf(Ev[l].a)
           ELSE IF Ev[l].k = "done" THEN plans' = {} /\ dists' = {}
           ELSE UNCHANGED <<plans, dists>>
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

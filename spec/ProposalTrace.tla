---------------------------- MODULE ProposalTrace ----------------------------
(* Judges the outcomes of the flip proposals.  A "dist" event holds every    *)
(* possible outcome with its exact probability <<num, den>> (tol = 0), or    *)
(* relative frequencies to be met within tol/10000.                          *)
EXTENDS ProposalDefs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
E == ToSet(Eps[ep].E)
K == Eps[ep].k
NameIf(c, name) == IF c THEN {} ELSE {name}
Outs(e) == {o[1] : o \in ToSet(e.outs)}
P(e, b) == LET o == CHOOSE x \in ToSet(e.outs) : x[1] = b IN <<o[2], o[3]>>
Same(e, p, q) == IF e.tol = 0 THEN p[1] * q[2] = p[2] * q[1]
                 ELSE LET x == (10000 * p[1]) \div p[2] y == (10000 * q[1]) \div q[2] IN Abs(x - y) <= e.tol
\* outcomes are exactly the moves M, with the odds Q(m)
Exactly(e, M, Q(_)) ==
    LET a == e.a IN
    NameIf(Outs(e) \subseteq {Move(a, m) : m \in M}, e.prop \o ":only-advertised-moves")
    \cup NameIf({Move(a, m) : m \in M} \subseteq Outs(e), e.prop \o ":every-move-possible")
    \cup NameIf(\A m \in M : Move(a, m) \in Outs(e) => Same(e, P(e, Move(a, m)), Q(m)), e.prop \o ":odds")
Support(e, S) ==
    NameIf(Outs(e) \subseteq S, e.prop \o ":only-advertised-moves")
    \cup NameIf(S \subseteq Outs(e), e.prop \o ":every-move-possible")
EveryDistrict(e) ==
    LET PP == Picks(E, e.a, 1..K) IN
    NameIf(\A b \in Outs(e) : \E p \in PP : Explains(e.a, p, b), e.prop \o ":only-advertised-moves")
    \cup NameIf(\A p \in PP : NoClash(p) => Applied(e.a, p) \in Outs(e), e.prop \o ":every-move-possible")
AnyNode(e) ==
    LET a == e.a
        Q(m) == <<1, Cardinality(DOMAIN a) * K>>
        M == {m \in (DOMAIN a) \X (1..K) : m[2] # a[m[1]]}
    IN NameIf(Outs(e) = {Move(a, m) : m \in M} \cup {a}, e.prop \o ":only-advertised-moves")
       \cup NameIf(\A m \in M : Move(a, m) \in Outs(e) => Same(e, P(e, Move(a, m)), Q(m)), e.prop \o ":odds")
       \cup NameIf(a \in Outs(e) => Same(e, P(e, a), <<1, K>>), e.prop \o ":odds")
Judge(e) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE NameIf(e.kept = 1, e.prop \o ":start-plan-unchanged")
      \cup CASE e.prop = "random" ->
              LET Q(m) == RandomFlip(E, e.a, m) IN
              IF CutEdges(E, e.a) = {} THEN NameIf(Outs(e) = {e.a} /\ e.same = 1, "random:returns-plan-itself")
              ELSE Exactly(e, Moves(E, e.a), Q)
           [] e.prop = "reversible" -> LET Q(m) == Reversible(E, e.a, m) IN Exactly(e, Moves(E, e.a), Q)
           [] e.prop = "bi" -> LET Q(m) == ReversibleBi(E, e.a, m) IN Exactly(e, Moves(E, e.a), Q)
           [] e.prop = "chunk" -> Support(e, Chunks(E, e.a))
           [] e.prop = "every" -> EveryDistrict(e)
           [] e.prop = "any" -> AnyNode(e)
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

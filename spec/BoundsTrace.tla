----------------------------- MODULE BoundsTrace -----------------------------
(* Judges recorded answers of constraints and bounds.  Values are in         *)
(* quarters.  first: object -> value of the first plan shown to it.          *)
EXTENDS Graphs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, first, bad
vars == <<ep, l, first, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
Bit(c) == IF c THEN 1 ELSE 0
Lo(s) == MinOf(ToSet(s))
Hi(s) == MaxOf(ToSet(s))
Seen(o) == IF o \in DOMAIN first THEN first[o] ELSE -999999

\* codes of the answers of a constraint: 1/0 booleans, 2/3 numpy booleans, >3 not boolean
IsFalse(x) == x \in {0, 3}
IsTrue(x) == x \in {1, 2}
JudgeValid(e) ==
    LET F == \E i \in DOMAIN e.rs : IsFalse(e.rs[i])
        X == \E i \in DOMAIN e.rs : e.rs[i] > 3
    IN  IF ~F /\ ~X THEN NameIf(e.got = "True", "all-hold-is-valid")
        ELSE IF F /\ ~X THEN NameIf(e.got = "False", "one-fails-is-invalid")
        ELSE IF X /\ ~F THEN NameIf(e.got = "TypeError", "non-boolean-is-an-error")
        ELSE NameIf(e.got \in {"False", "TypeError"}, "fails-or-error")
JudgeConstruct(e) ==
    LET F == {i \in DOMAIN e.rs : IsFalse(e.rs[i])} IN
    IF F = {} THEN NameIf(e.got = "ok", "valid-initial-plan-accepted")
    ELSE NameIf(e.got = "ValueError", "invalid-initial-plan-refused")
         \cup NameIf(e.got # "ValueError" \/ ToSet(e.named) = F, "error-names-every-failed-constraint")

\* the answer of a self-configuring bound shown value v, having first seen f
SelfAnswer(e, f) ==
    CASE e.kind = "upper" -> e.v <= f
      [] e.kind = "lower" -> e.v >= f - e.eps
      [] e.kind = "range" -> 8 * Abs(e.v - f) <= e.pct * Abs(f)
JudgeSelf(e) == LET f == IF e.o \in DOMAIN first THEN first[e.o] ELSE e.v
                IN NameIf(e.ans = Bit(SelfAnswer(e, f)), "self-configuring-" \o e.kind)
\* population within pct/pden of total/k; sixteenths are exact in floating point,
\* hundredths are not: there, a district exactly at the bound may go either way
JudgePop(e) == LET t == SumSeq(e.t0) k == Len(e.t0)
                   off(i) == e.pden * Abs(k * e.t[i] - t)
                   edge == e.pden # 16 /\ \E i \in DOMAIN e.t : off(i) = e.pct * t IN
    NameIf(e.ans = Bit(\A i \in DOMAIN e.t : off(i) <= e.pct * t)
           \/ (edge /\ e.ans = 0), "population-bounds")
JudgeDev(e) == LET t == SumSeq(e.t) k == Len(e.t) IN
    NameIf(\A i \in DOMAIN e.t : e.val[i][2] # 0 /\ e.val[i][1] * t = e.val[i][2] * (k * e.t[i] - t), "deviation-from-ideal")
\* largest - smallest <= num/den * smallest
JudgeTol(e) == NameIf(\/ e.ans = Bit(e.den * (Hi(e.t) - Lo(e.t)) <= e.num * Lo(e.t))
                       \/ (e.den = 10 /\ e.den * (Hi(e.t) - Lo(e.t)) = e.num * Lo(e.t)), "tolerance-between-districts")
Judge(e) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE CASE e.k = "bounds" -> NameIf(e.ans = Bit(e.lo <= Lo(e.vals) /\ Hi(e.vals) <= e.hi), "fixed-bounds")
           [] e.k = "upper" -> NameIf(e.ans = Bit(e.v <= e.b), "upper-bound")
           [] e.k = "lower" -> NameIf(e.ans = Bit(e.v >= e.b), "lower-bound")
           [] e.k = "self" -> JudgeSelf(e)
           [] e.k = "pop" -> JudgePop(e)
           [] e.k = "dev" -> JudgeDev(e)
           [] e.k = "tol" -> JudgeTol(e)
           [] e.k = "vanish" -> NameIf(e.ans = Bit(\A i \in DOMAIN e.sizes : e.sizes[i] > 0), "no-vanishing-districts")
           [] e.k = "valid" -> JudgeValid(e)
           [] e.k = "construct" -> JudgeConstruct(e)
Init == ep \in 1..Len(Eps) /\ l = 1 /\ first = <<>> /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ LET e == Ev[l] IN
           first' = IF e.k = "self" /\ e.exc = "" /\ e.o \notin DOMAIN first
                    THEN [o \in DOMAIN first \cup {e.o} |-> IF o = e.o THEN e.v ELSE first[o]]
                    ELSE first
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

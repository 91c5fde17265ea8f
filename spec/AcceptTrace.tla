------------------------------ MODULE AcceptTrace ------------------------------
(* Judges acceptance decisions.  Events:                                      *)
(*  runs: all outcomes of a run with scripted proposals.  rule, s (scores or  *)
(*    cut edge counts of the plans: s[1] initial, s[i + 1] the i-th proposal),*)
(*    par (max, p16, beta: quarters for step 0.., mag), outs: <<accepted      *)
(*    flags>>, probability in 1/16384.                                        *)
(*  single: cut_edge_accept(plan): probability of yes.                        *)
(*  beta: schedule values.                                                    *)
EXTENDS AcceptDefs, FiniteSets, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
ToSet(s) == {s[i] : i \in DOMAIN s}
Abs(z) == IF z < 0 THEN -z ELSE z
NameIf(c, name) == IF c THEN {} ELSE {name}
\* probability that proposal i is accepted when the state is plan c and it would be step number t
A(e, c, i, t) ==
    LET new == e.s[i + 1] old == e.s[c + 1]
        worse == IF e.max = 1 THEN old - new ELSE new - old IN
    CASE e.rule = "cut" -> CutEdgeAccept(old, new)
      [] e.rule = "tilted" -> Tilted(worse, e.p16)
      [] e.rule = "anneal" -> Anneal(worse, e.beta[t + 1], e.mag)
      [] e.rule = "always" -> One
RECURSIVE PathProb(_, _, _, _, _)
PathProb(e, flags, i, c, t) ==
    IF i > Len(flags) THEN One
    ELSE LET a == A(e, c, i, t + 1) IN
         IF flags[i] = 1 THEN (a * PathProb(e, flags, i + 1, i, t + 1)) \div One
         ELSE ((One - a) * PathProb(e, flags, i + 1, c, t)) \div One
Flags(n) == [1..n -> {0, 1}]
JudgeRuns(e) ==
    LET n == Len(e.s) - 1
        Got(f) == LET m == {o \in ToSet(e.outs) : o[1] = f} IN IF m = {} THEN 0 ELSE (CHOOSE o \in m : TRUE)[2]
        tol == 2 * n + 2 + e.tol
    IN NameIf(\A f \in Flags(n) : Abs(Got(f) - PathProb(e, f, 1, 0, 0)) <= tol, "acceptance-probability:" \o e.rule)
       \cup NameIf(\A o \in ToSet(e.outs) : o[1] \in Flags(n), "accepted-or-unchanged")
       \cup NameIf(\A f \in Flags(n) : PathProb(e, f, 1, 0, 0) = One => Got(f) = One, "certain-acceptance:" \o e.rule)
\* beta: value v as fraction vn/vd (logit kinds: the odds it stands for, on/od, unless v is 0 or 1)
JudgeBeta(e) ==
    LET p == Phase(e.kind, e.hot, e.cool, e.cold, e.step)
        isLogit == e.kind \in {"logit", "logitjump"}
        \* x/(1-x) compared with exp(-5), exp(5) = 148.4132
        num == IF p[1] = "warm" THEN p[3] - p[2] ELSE p[2]    \* 1 - f(x) = f(1 - x)
        den == p[3]
        low == 148 * num + (413 * num) \div 1000 < den - num
        high == num > 148 * (den - num) + (413 * (den - num)) \div 1000
    IN IF p[1] = "const" THEN NameIf(e.vn = p[2] * e.vd, "hot-and-cold-phases:" \o e.kind)
       ELSE IF ~isLogit THEN NameIf(e.vn * den = e.vd * num, "linear-in-between:" \o e.kind)
       ELSE IF low THEN NameIf(e.vn = 0, "logit-clamped:" \o e.kind)
       ELSE IF high THEN NameIf(e.vn = e.vd /\ e.vd # 0, "logit-clamped:" \o e.kind)
       ELSE NameIf(e.od # 0 /\ e.on * (den - num) = e.od * num, "logit-in-between:" \o e.kind)
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k = "runs" -> JudgeRuns(e) [] e.k = "beta" -> JudgeBeta(e)
                   [] e.k = "orphan" -> NameIf(e.p = One, "plan-without-parent-accepted:" \o e.rule)
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

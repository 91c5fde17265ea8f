----------------------------- MODULE GinglesTrace -----------------------------
(* Judges recorded Gingles scores.  score: shares of the districts by         *)
(* definition (num, den), threshold, name, v (the score in 1/100000);         *)
(* shares: those the optimizer's own updater reported; run: scores of all     *)
(* plans seen and the best reported.                                          *)
EXTENDS GinglesDefs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
Abs(z) == IF z < 0 THEN -z ELSE z
NameIf(c, name) == IF c THEN {} ELSE {name}
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Of(col, a, d) == SumSeq([v \in DOMAIN a |-> IF a[v] = d THEN col[v] ELSE 0])
\* shares of the plan a by definition
Shares(e) == [d \in 1..e.K |-> <<Of(e.min, e.a, d), Of(e.tot, e.a, d)>>]
JudgeScore(e) == LET sh == IF e.given = 1 THEN e.sh ELSE Shares(e) IN
    NameIf(Abs(ScoreOf(e.name, sh, e.t) - e.v) <= 60, "score-equals-definition:" \o e.name)
JudgeShares(e) == LET sh == Shares(e) IN
    NameIf(\A d \in 1..e.K : e.got[d][1] * sh[d][2] = sh[d][1] * e.got[d][2] /\ e.got[d][2] # 0, "share-is-minority-over-total")
JudgeRun(e) == NameIf(\A i \in DOMAIN e.seen : e.best >= e.seen[i] - 60, "maximizes-score")
               \cup NameIf(\E i \in DOMAIN e.seen : e.best = e.seen[i], "best-score-was-seen")
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k = "score" -> JudgeScore(e) [] e.k = "shares" -> JudgeShares(e) [] e.k = "run" -> JudgeRun(e)
                   [] e.k = "refused" -> NameIf(e.err = "ValueError", "refuses-without-column")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

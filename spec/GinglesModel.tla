----------------------------- MODULE GinglesModel -----------------------------
(* All combinations of district shares on a grid: every score is the number   *)
(* of opportunity districts plus a term between 0 and 1, so it never ranks a  *)
(* plan with fewer opportunity districts higher; raising a share never        *)
(* lowers the count or the rewards.                                           *)
EXTENDS GinglesDefs, TLC
CONSTANTS K, Den, Bug
VARIABLES sh, t, old
vars == <<sh, t, old>>
Names == {"num", "partial", "close", "maxover", "avgover"}
Init == /\ sh \in [1..K -> {<<i, Den>> : i \in 0..Den}]
        /\ t \in {<<i, Den>> : i \in 1..(Den - 1)}
        /\ old = sh
Next == \E d \in 1..K : /\ old = sh /\ sh[d][1] < Den
                        /\ sh' = [sh EXCEPT ![d] = <<@[1] + 1, Den>>]
                        /\ old' = sh /\ t' = t
S(name, x) == IF Bug = "exceeds" /\ name = "partial" /\ Below(x, t) = {} THEN Num(x, t) + 2 * U ELSE ScoreOf(name, x, t)
Slack == 40
TermInUnit == \A n \in Names : S(n, sh) >= (IF n \in {"maxover", "avgover"} /\ Count(sh, t) = 0 THEN 0 ELSE Num(sh, t))
                               /\ S(n, sh) <= Num(sh, t) + U + Slack
Monotone == /\ Count(sh, t) >= Count(old, t)
            /\ S("close", sh) >= S("close", old) - Slack
            /\ Count(sh, t) = Count(old, t) => S("partial", sh) >= S("partial", old) - Slack
                                               /\ S("maxover", sh) <= S("maxover", old) + Slack
                                               /\ S("avgover", sh) <= S("avgover", old) + Slack
==============================================================================

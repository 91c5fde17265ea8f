------------------------------ MODULE AcceptModel ------------------------------
(* A chain on M plans with integer cut-edge counts or scores and symmetric    *)
(* proposals: the acceptance rules leave the distribution they aim at alone   *)
(* (detailed balance), and the schedules are cyclic, run from 0 to 1 without  *)
(* jumping except where the jump variants say so.                             *)
EXTENDS AcceptDefs, TLC
CONSTANTS MaxCut, MaxScore, MaxDur, Bug
VARIABLES x, y, hot, cool, cold, step
vars == <<x, y, hot, cool, cold, step>>
Init == /\ x \in 1..MaxCut /\ y \in 1..MaxCut
        /\ hot \in 0..MaxDur /\ cool \in 0..MaxDur /\ cold \in 1..MaxDur
        /\ step = 0
Next == step < 3 * (2 * MaxDur + 2 * MaxDur) /\ step' = step + 1 /\ UNCHANGED <<x, y, hot, cool, cold>>
Abs(z) == IF z < 0 THEN -z ELSE z
\* plans weighted by the number of cut edges 1/c: rounding of both sides is below x + y
CutBalance == Abs(CutEdgeAccept(x, y) * y - CutEdgeAccept(y, x) * x) <= x + y
\* scores weighted by 2^(-score) (minimizing): 2^-x a(x->y) = 2^-y a(y->x)
AnnealBalance == LET a == Anneal(y - x, 4, 4) b == Anneal(x - y, 4, 4) IN
    (y > x => a = Halve(b, y - x)) /\ (y <= x => b = Halve(a, x - y))
Val(kind, s) == LET p == Phase(kind, hot, cool, cold, IF Bug = "off" THEN s + (IF s > 2 THEN 1 ELSE 0) ELSE s) IN
    CASE p[1] = "const" -> <<p[2], 1>> [] p[1] = "cool" -> <<p[2], p[3]>> [] p[1] = "warm" -> <<p[3] - p[2], p[3]>>
InUnit == \A kind \in {"jump", "linear", "linearjump"} : LET v == Val(kind, step) IN v[1] >= 0 /\ v[1] <= v[2]
Cyclic == \A kind \in {"jump", "linear", "linearjump"} :
    Val(kind, step) = Val(kind, step + CycleLen(kind, hot, cool, cold))
\* with cooldown phases the linear cycle changes by at most 1/cool per step
Smooth == cool > 0 => LET v == Val("linear", step) w == Val("linear", step + 1) IN Abs(v[1] * w[2] - w[1] * v[2]) * cool <= v[2] * w[2]
==============================================================================

----------------------------- MODULE BoundsModel -----------------------------
(* Self-configuring bounds: the first plan shown sets the bound for good.    *)
(* TLC shows every sequence of values to the three kinds of bounds.          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS R, MaxCalls, Bug
Values == (0 - R)..R
Abs(x) == IF x < 0 THEN -x ELSE x
Eps == 1          \* slack of the lower bound
Pct == 4          \* eighths: 50 percent
VARIABLES kind, bound, first, seen, ans
vars == <<kind, bound, first, seen, ans>>
Unset == <<>>
Init == kind \in {"upper", "lower", "range"} /\ bound = Unset /\ first = Unset /\ seen = <<>> /\ ans = <<>>
\* the bound as it is kept
Bound(v) == CASE kind = "upper" -> <<v, v>>
              [] kind = "lower" -> <<v - Eps, v>>
              [] kind = "range" -> IF Bug = "signed" THEN <<8 * v - v * Pct, 8 * v + v * Pct>>
                                   ELSE <<8 * v - Abs(v) * Pct, 8 * v + Abs(v) * Pct>>
Configured == bound # Unset /\ ~(Bug = "falsy" /\ bound[1] = 0)
Call(v) ==
    LET b == IF Configured THEN bound ELSE Bound(v) IN
    /\ Len(seen) < MaxCalls
    /\ seen' = Append(seen, v)
    /\ first' = IF seen = <<>> THEN <<v>> ELSE first
    /\ bound' = IF Bug = "follows" /\ Configured /\ kind = "upper" /\ v < b[1] THEN Bound(v)
                ELSE IF Bug = "creeps" /\ Configured /\ kind = "range" /\ 8 * v = b[2] THEN <<b[1], b[2] + v * Pct>>
                ELSE b
    /\ ans' = Append(ans, CASE kind = "upper" -> v <= b[1]
                            [] kind = "lower" -> v >= b[1]
                            [] kind = "range" -> b[1] <= 8 * v /\ 8 * v <= b[2])
    /\ UNCHANGED kind
Next == \E v \in Values : Call(v)
\* C07
Frozen == \A i \in DOMAIN seen :
    ans[i] = CASE kind = "upper" -> seen[i] <= first[1]
               [] kind = "lower" -> seen[i] >= first[1] - Eps
               [] kind = "range" -> 8 * Abs(seen[i] - first[1]) <= Pct * Abs(first[1])
Spec == Init /\ [][Next]_vars
==============================================================================

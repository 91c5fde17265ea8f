------------------------------ MODULE GinglesDefs ------------------------------
(* Gingles scores.  Shares and thresholds are fractions <<num, den>>; scores  *)
(* are in units of 1/100000, rounded down.                                    *)
EXTENDS Integers, Sequences, FiniteSets
U == 100000
GE(x, y) == x[1] * y[2] >= y[1] * x[2]
Above(sh, t) == {d \in DOMAIN sh : GE(sh[d], t)}
Below(sh, t) == DOMAIN sh \ Above(sh, t)
Count(sh, t) == Cardinality(Above(sh, t))
MaxIn(sh, D) == LET d == CHOOSE x \in D : \A y \in D : GE(sh[x], sh[y]) IN sh[d]
Fix(x) == (x[1] * U) \div x[2]
RECURSIVE SumFix(_, _)
SumFix(sh, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN Fix(sh[d]) + SumFix(sh, D \ {d})
Num(sh, t) == U * Count(sh, t)
Partial(sh, t) == Num(sh, t) + (IF Below(sh, t) = {} THEN 0 ELSE Fix(MaxIn(sh, Below(sh, t))))
\* the next highest district counts if it is within a tenth of the threshold
Close(sh, t) ==
    IF Below(sh, t) = {} THEN Num(sh, t)
    ELSE LET m == Fix(MaxIn(sh, Below(sh, t)))
             x == m - Fix(t) + U \div 10
         IN Num(sh, t) + (IF x < 0 THEN 0 ELSE 10 * x)
\* t < 1
Excess(x, t) == ((((x[2] - x[1]) * U) \div x[2]) * t[2]) \div (t[2] - t[1])
MaxOver(sh, t) == IF Above(sh, t) = {} THEN 0 ELSE Num(sh, t) + Excess(MaxIn(sh, DOMAIN sh), t)
AvgOver(sh, t) == IF Above(sh, t) = {} THEN 0
                  ELSE Num(sh, t) + ((U - SumFix(sh, Above(sh, t)) \div Count(sh, t)) * t[2]) \div (t[2] - t[1])
ScoreOf(name, sh, t) == CASE name = "num" -> Num(sh, t) [] name = "partial" -> Partial(sh, t) [] name = "close" -> Close(sh, t)
                          [] name = "maxover" -> MaxOver(sh, t) [] name = "avgover" -> AvgOver(sh, t)
==============================================================================

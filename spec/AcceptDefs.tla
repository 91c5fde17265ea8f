------------------------------ MODULE AcceptDefs ------------------------------
(* Acceptance probabilities in units of 1/16384.  Scores are in units whose   *)
(* exponential is a power of two: exp(-h * ln 2 / 16) for h sixteenths.       *)
EXTENDS Integers, Sequences
One == 16384
Min2(x, y) == IF x < y THEN x ELSE y
\* 2^(-j/16)
Root == <<16384, 15689, 15024, 14387, 13777, 13193, 12634, 12098, 11585, 11094, 10624, 10173, 9742, 9329, 8933, 8555>>
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 \/ x = 0 THEN x ELSE Halve(x \div 2, n - 1)
ExpNeg(h) == IF h <= 0 THEN One ELSE Halve(Root[(h % 16) + 1], h \div 16)
CutEdgeAccept(cparent, cnew) == IF cnew = 0 THEN One ELSE Min2(One, (One * cparent) \div cnew)
\* d: how much worse the plan is than its parent (negative: better)
Tilted(d, p16) == IF d <= 0 THEN One ELSE 1024 * p16
\* d in multiples of ln 2, beta in quarters, mag in quarters
Anneal(d, beta4, mag4) == IF d <= 0 THEN One ELSE ExpNeg(beta4 * mag4 * d)
\* ---- hot-cold schedules: value as a fraction, or "logit" of a fraction ----------
Mod(t, c) == t % c
\* linear cooldown x = num/den of the way from 0 to 1
CycleLen(kind, hot, cool, cold) ==
    CASE kind = "jump" -> hot + cold
      [] kind \in {"linear", "logit"} -> hot + 2 * cool + cold
      [] OTHER -> hot + cool + cold
\* <<phase, num, den>>: "const" value num; "cool": x = num/den on the way to cold; "warm": on the way to hot
Phase(kind, hot, cool, cold, step) ==
    LET c == CycleLen(kind, hot, cool, cold)
        t == step % c IN
    IF t < hot THEN <<"const", 0, 1>>
    ELSE IF kind # "jump" /\ t < hot + cool THEN <<"cool", t - hot, cool>>
    ELSE IF kind \in {"linear", "logit"} /\ t >= c - cool THEN <<"warm", t - (c - cool), cool>>
    ELSE <<"const", 1, 1>>
==============================================================================

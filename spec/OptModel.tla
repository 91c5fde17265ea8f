------------------------------- MODULE OptModel -------------------------------
(* Optimization runs as state machines: bursts of fixed or variable length    *)
(* (a plain run is one burst).  Plans are numbers, 0 is the initial one; the  *)
(* environment chooses the score of every proposal and whether it is accepted.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, Steps, Kind, BurstLen, Buffer, Maximize, Bug
VARIABLES scores, cur, best, bscore, blen, pos, stuck, yields, lens, improved, script
vars == <<scores, cur, best, bscore, blen, pos, stuck, yields, lens, improved, script>>
\* scores[i + 1]: score of plan i; pos: plans handed out in this burst
\* lens: lengths of the bursts begun; improved: per burst, a strictly better plan was found
\* stuck: the code's counter of plans without improvement
AtLeast(x, y) == IF Maximize THEN x >= y ELSE x <= y
Better(x, y) == AtLeast(x, y) /\ x # y
Init == /\ \E s \in 1..S : scores = <<s>>
        /\ cur = 0 /\ best = 0 /\ bscore = scores[1]
        /\ blen = (IF Kind = "variable" THEN 2 ELSE BurstLen)
        /\ pos = 0 /\ stuck = 0 /\ yields = <<>> /\ lens = <<>> /\ improved = <<>> /\ script = <<>>
Hand(id, sc) ==
    LET tie == IF Bug = "tie-improves" THEN AtLeast(sc, bscore) ELSE Better(sc, bscore)
        take == IF Bug = "keeps-first" THEN Better(sc, bscore) ELSE AtLeast(sc, bscore)
        st == IF tie THEN 0 ELSE stuck + 1
        full == pos + 1 = blen
        dbl == Kind = "variable" /\ full /\ st >= (IF Bug = "early" THEN (Buffer - 1) * blen ELSE Buffer * blen)
    IN /\ yields' = Append(yields, [id |-> id, start |-> pos = 0])
       /\ best' = IF take THEN id ELSE best
       /\ bscore' = IF take THEN sc ELSE bscore
       /\ cur' = id
       /\ stuck' = IF dbl THEN 0 ELSE st
       /\ blen' = IF dbl THEN 2 * blen ELSE blen
       /\ pos' = IF full THEN 0 ELSE pos + 1
       /\ lens' = IF pos = 0 THEN Append(lens, blen) ELSE lens
       /\ improved' = IF pos = 0 THEN Append(improved, Better(sc, bscore))
                      ELSE [improved EXCEPT ![Len(improved)] = @ \/ Better(sc, bscore)]
StartBurst == /\ pos = 0 /\ Len(yields) < Steps
              /\ LET b == IF Bug = "continues" THEN cur ELSE best IN Hand(b, scores[b + 1])
              /\ UNCHANGED <<scores, script>>
Go(s, acc) == /\ pos > 0 /\ Len(yields) < Steps
              /\ scores' = Append(scores, s)
              /\ script' = Append(script, <<s, IF acc THEN 1 ELSE 0>>)
              /\ Hand(IF acc THEN Len(scores) ELSE cur, IF acc THEN s ELSE scores[cur + 1])
Next == StartBurst \/ \E s \in 1..S, acc \in BOOLEAN : Go(s, acc)
\* ---- C17 ----------------------------------------------------------------------
Score(id) == scores[id + 1]
Seen(i) == {0} \cup {yields[j].id : j \in 1..i}
BestOf(i) == \* the latest plan with the best score among the initial one and the first i handed out
    LET top == CHOOSE x \in {Score(p) : p \in Seen(i)} : \A p \in Seen(i) : AtLeast(x, Score(p))
        at == {j \in 1..i : Score(yields[j].id) = top}
    IN IF at = {} THEN 0 ELSE yields[CHOOSE j \in at : \A k \in at : k <= j].id
BestIsBest == best = BestOf(Len(yields)) /\ bscore = Score(best)
BurstsStartAtBest == \A i \in DOMAIN yields : yields[i].start => yields[i].id = BestOf(i - 1)
\* number of bursts in a row, up to burst j, of its length and without improvement
RECURSIVE FlatRun(_)
FlatRun(j) == IF j = 0 \/ improved[j] THEN 0
              ELSE 1 + (IF j > 1 /\ lens[j - 1] = lens[j] THEN FlatRun(j - 1) ELSE 0)
LengthRule == /\ Len(lens) > 0 => lens[1] = (IF Kind = "variable" THEN 2 ELSE BurstLen)
              /\ \A j \in 2..Len(lens) :
                    lens[j] = IF Kind = "variable" /\ FlatRun(j - 1) >= Buffer THEN 2 * lens[j - 1] ELSE lens[j - 1]
Emit == ~(Len(yields) = Steps)
        \/ PrintT(ToJson([kind |-> Kind, s0 |-> scores[1], len |-> BurstLen, buffer |-> Buffer,
                          steps |-> Steps, max |-> IF Maximize THEN 1 ELSE 0, ops |-> script]))
==============================================================================

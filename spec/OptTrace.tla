------------------------------- MODULE OptTrace -------------------------------
(* Judges recorded optimization runs.  Episode: max (1: maximize), scores    *)
(* (plan i has scores[i + 1]).  Events: start (kind, len, steps, buffer,     *)
(* rule: user - the user's acceptance function decides; p0 - no worse plan   *)
(* is taken; p1 - every valid plan is; free - worse ones by chance),         *)
(* prop (from, id, ok: satisfies the constraints), acc (id, ans; the user's  *)
(* acceptance function), yield (id; best and bs: plan and score reported at  *)
(* that moment), end (best, bs), left (the run is abandoned).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, st, bad
vars == <<ep, l, st, bad>>
Ev == Eps[ep].ev
Score(id) == Eps[ep].scores[id + 1]
AtLeast(x, y) == IF Eps[ep].max = 1 THEN x >= y ELSE x <= y
Better(x, y) == AtLeast(x, y) /\ x # y
NameIf(c, name) == IF c THEN {} ELSE {name}
None == [kind |-> "none", blen |-> 0, steps |-> 0, buffer |-> 0, cur |-> 0, best |-> 0, cnt |-> 0, pos |-> 0,
         flat |-> 0, imp |-> 0, rule |-> "free", pend |-> -1, ok |-> 0, ans |-> -1, asked |-> 0]
Start(e) == [None EXCEPT !.kind = e.kind, !.blen = e.len, !.steps = e.steps, !.buffer = e.buffer, !.rule = e.rule]
NewBest(id) == IF AtLeast(Score(id), Score(st.best)) THEN id ELSE st.best
JudgeYield(e) ==
    NameIf(st.cnt < st.steps, "no-more-plans-than-announced")
    \cup (IF st.pos = 0
          THEN NameIf(e.id = st.best, IF st.cnt = 0 THEN "starts-at-initial-plan" ELSE "burst-starts-at-best-plan")
               \cup NameIf(st.pend = -1, "burst-start-is-not-a-step")
          ELSE NameIf(st.pend # -1 /\ st.ok = 1, "step-needs-valid-proposal")
               \cup NameIf(e.id \in {st.pend, st.cur}, "accepted-or-unchanged")
               \cup NameIf(st.ans = -1 \/ e.id = (IF st.ans = 1 THEN st.pend ELSE st.cur), "acceptance-obeyed")
               \cup NameIf(st.asked = (IF st.rule = "user" THEN 1 ELSE 0), "user-asked-once-per-step")
               \cup NameIf(st.rule # "p1" \/ e.id = st.pend, "every-valid-plan-taken")
               \cup NameIf(st.rule # "p0" \/ st.pend = -1 \/ AtLeast(Score(st.pend), Score(st.cur)) \/ e.id = st.cur, "no-worse-plan-taken")
               \cup NameIf(st.ans # -1 \/ st.pend = -1 \/ ~AtLeast(Score(st.pend), Score(st.cur)) \/ e.id = st.pend, "no-worse-plan-accepted"))
    \cup NameIf(e.best \in {st.best} \cup (IF e.id >= 0 THEN {NewBest(e.id)} ELSE {}), "tracks-best-plan")
    \cup NameIf(e.best < 0 \/ e.bs = Score(e.best), "best-score-is-score-of-best-plan")
ApplyYield(e) ==
    LET imp == IF Better(Score(e.id), Score(st.best)) THEN 1 ELSE IF st.pos = 0 THEN 0 ELSE st.imp
        full == st.pos + 1 = st.blen
        flat == IF imp = 1 THEN 0 ELSE st.flat + 1
        dbl == st.kind = "variable" /\ full /\ flat >= st.buffer
    IN [st EXCEPT !.cnt = @ + 1, !.cur = e.id, !.best = NewBest(e.id), !.pend = -1, !.ok = 0, !.ans = -1, !.asked = 0,
                  !.imp = imp, !.pos = IF full THEN 0 ELSE @ + 1,
                  !.flat = IF ~full THEN @ ELSE IF dbl THEN 0 ELSE flat,
                  !.blen = IF dbl THEN 2 * @ ELSE @]
JudgeProp(e) ==
    NameIf(e.from = st.cur, "proposed-from-current-plan")
    \cup NameIf(st.cnt < st.steps, "no-proposal-after-the-end")
    \cup NameIf(st.pos > 0, "burst-starts-at-best-plan")
    \cup NameIf(st.pend = -1 \/ st.ok = 0, "valid-proposal-is-decided")
JudgeEnd(e) ==
    NameIf(st.cnt = st.steps, "announced-number-of-plans")
    \cup NameIf(e.best = st.best, "best-plan-is-latest-with-best-score")
    \cup NameIf(e.bs = Score(st.best), "best-score")
Judge(e) == CASE e.k = "start" -> {}
              [] e.k = "prop" -> JudgeProp(e)
              [] e.k = "acc" -> NameIf(e.id = st.pend /\ st.ok = 1, "asked-about-the-valid-proposal")
              [] e.k = "yield" -> JudgeYield(e)
              [] e.k = "end" -> JudgeEnd(e)
              [] e.k = "left" -> {}
              [] e.k = "raised" -> {"raised:" \o e.exc}
Apply(e) == CASE e.k = "start" -> Start(e)
              [] e.k = "prop" -> [st EXCEPT !.pend = e.id, !.ok = e.ok, !.ans = -1, !.asked = 0]
              [] e.k = "acc" -> [st EXCEPT !.ans = e.ans, !.asked = @ + 1]
              [] e.k = "yield" -> ApplyYield(e)
              [] OTHER -> st
Init == ep \in 1..Len(Eps) /\ l = 1 /\ st = None /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ st' = IF bad' = {} THEN Apply(Ev[l]) ELSE st
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

------------------------------ MODULE ChainTrace ------------------------------
(* Judges recorded runs of MarkovChain.  Events, in the order in which they  *)
(* happened: iter (iteration starts), propose (the proposal was called with  *)
(* plan from and returned plan p; ok: p satisfies all constraints), accept   *)
(* (the acceptance function was asked about p and answered ans), yield (the  *)
(* chain handed out p), stop, raised (a callback raised and the exception    *)
(* came out of the chain).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, st, bad
vars == <<ep, l, st, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
\* pend: pending proposal (-1: none), ok: it is valid, asked/ans: acceptance
Start == [on |-> 0, cur |-> 0, cnt |-> 0, pend |-> -1, ok |-> 0, asked |-> 0, ans |-> 0]
N == Eps[ep].n

JudgeYield(e) ==
    IF st.on = 0 THEN {"yield-outside-iteration"}
    ELSE IF st.cnt = 0 THEN NameIf(e.p = 0, "first-state-is-initial") \cup NameIf(st.asked = 0 /\ st.pend = -1, "initial-state-is-not-a-step")
    ELSE NameIf(st.cnt < N, "no-more-than-N-states")
         \cup NameIf(st.pend # -1, "step-needs-a-proposal")
         \cup NameIf(st.pend = -1 \/ st.ok = 1, "invalid-proposal-not-counted")
         \cup NameIf(st.asked = 1, "accept-asked-once-per-step")
         \cup NameIf(e.p = (IF st.ans = 1 THEN st.pend ELSE st.cur), "accepted-or-unchanged")
         \cup NameIf(e.depth <= 1, "link-to-direct-predecessor-only")
         \cup NameIf(e.p # st.pend \/ st.ans = 0 \/ e.par = -2 \/ e.p = st.cur \/ e.par = st.cur, "new-state-links-to-previous")
JudgeAccept(e) ==
    NameIf(e.p = st.pend, "accept-is-asked-about-the-proposal")
    \cup NameIf(st.ok = 1, "invalid-proposal-not-shown-to-accept")
    \cup NameIf(st.asked = 0, "accept-asked-once-per-step")
JudgePropose(e) ==
    NameIf(e.from = st.cur, "proposed-from-current-state")
    \cup NameIf(st.cnt >= 1 /\ st.cnt < N, "no-proposal-outside-a-step")
    \cup NameIf(st.pend = -1 \/ st.ok = 0, "valid-proposal-is-decided")
JudgeStop(e) == NameIf(st.cnt = N, "exactly-N-states") \cup NameIf(e.len = N, "len-is-N")
Judge(e) == CASE e.k = "iter" -> {}
              [] e.k = "propose" -> JudgePropose(e)
              [] e.k = "accept" -> JudgeAccept(e)
              [] e.k = "yield" -> JudgeYield(e)
              [] e.k = "stop" -> JudgeStop(e)
              [] e.k = "raised" -> NameIf(e.planned = 1, "raised:" \o e.exc)
Apply(e) == CASE e.k = "iter" -> [Start EXCEPT !.on = 1]
              [] e.k = "propose" -> [st EXCEPT !.pend = e.p, !.ok = e.ok, !.asked = 0, !.ans = 0]
              [] e.k = "accept" -> [st EXCEPT !.asked = @ + 1, !.ans = e.ans]
              [] e.k = "yield" -> [st EXCEPT !.cnt = @ + 1, !.cur = e.p, !.pend = -1, !.ok = 0, !.asked = 0, !.ans = 0]
              [] e.k = "raised" -> [st EXCEPT !.pend = -1, !.ok = 0, !.asked = 0, !.ans = 0]
              [] e.k = "stop" -> st
Init == ep \in 1..Len(Eps) /\ l = 1 /\ st = Start /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ st' = IF bad' = {} THEN Apply(Ev[l]) ELSE st
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

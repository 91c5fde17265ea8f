------------------------------ MODULE ChainModel ------------------------------
(* The Markov chain iterator as a state machine.  Plans are numbers, 0 is    *)
(* the initial one.  What the proposal comes up with is chosen by the        *)
(* environment: "bad" (violates a constraint), "no" (valid, rejected), "yes" *)
(* (valid, accepted), "self" (the current plan itself, accepted) or "selfno".*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxProposals, MaxIters, Bug
Kinds == {"bad", "no", "yes", "self", "selfno"}

VARIABLES n, pc, cur, cnt, pend, script, yields, asked, par, made, iters
vars == <<n, pc, cur, cnt, pend, script, yields, asked, par, made, iters>>
\* pend: the pending proposal as <<plan, kind>>, or <<>>
\* par: plan -> the plan its parent link leads to, or -1
\* yields: the states handed out in this iteration, with how they came about
Init == /\ n \in 1..MaxN
        /\ pc = "idle" /\ cur = 0 /\ cnt = 0 /\ pend = <<>> /\ script = <<>>
        /\ yields = <<>> /\ asked = 0 /\ par = <<>> /\ made = 0 /\ iters = 0
ParOf(p) == IF p = 0 THEN (IF 0 \in DOMAIN par THEN par[0] ELSE -1) ELSE par[p]

Iter == /\ iters < MaxIters
        /\ pc \in {"idle", "ready", "done"}
        /\ iters' = iters + 1
        /\ pc' = "first" /\ cnt' = 0 /\ pend' = <<>> /\ yields' = <<>>
        /\ cur' = IF Bug = "no-reset" THEN cur ELSE 0
        /\ script' = Append(script, "iter")
        /\ UNCHANGED <<n, asked, par, made>>
First == /\ pc = "first"
         /\ yields' = <<[p |-> cur, how |-> "initial"]>>
         /\ cnt' = 1 /\ pc' = "ready" /\ asked' = 0
         /\ UNCHANGED <<n, cur, pend, script, par, made, iters>>
Stop == /\ pc = "ready" /\ cnt >= n
        /\ pc' = "done"
        /\ UNCHANGED <<n, cur, cnt, pend, script, yields, asked, par, made, iters>>
Propose(kd) ==
    /\ pc = "ready" /\ cnt < n /\ Len(script) < MaxProposals
    /\ script' = Append(script, kd)
    /\ IF kd \in {"self", "selfno"}
       THEN /\ pend' = <<cur, kd>> /\ made' = made
            /\ par' = [q \in DOMAIN par |-> IF q = cur THEN -1 ELSE par[q]]
       ELSE /\ made' = made + 1
            /\ pend' = <<made + 1, kd>>
            /\ par' = [q \in 1..(made + 1) |-> IF q = made + 1 THEN cur
                         ELSE IF q = cur /\ Bug # "keeps-ancestors" THEN -1 ELSE par[q]]
    /\ pc' = IF kd = "bad" /\ Bug # "accepts-invalid" THEN "ready" ELSE "decide"
    /\ cnt' = IF kd = "bad" /\ Bug = "counts-invalid" THEN cnt + 1 ELSE cnt
    /\ UNCHANGED <<n, cur, yields, asked, iters>>
Decide ==
    /\ pc = "decide"
    /\ asked' = asked + 1
    /\ LET yes == pend[2] \in {"yes", "self"} \/ (Bug = "accepts-invalid" /\ pend[2] = "bad") IN
       /\ cur' = IF yes THEN pend[1] ELSE cur
       /\ yields' = Append(yields, [p |-> IF yes THEN pend[1] ELSE cur,
                                    how |-> IF yes THEN (IF pend[2] = "bad" THEN "invalid" ELSE "accepted") ELSE "rejected"])
    /\ cnt' = cnt + 1 /\ pend' = <<>> /\ pc' = "ready"
    /\ UNCHANGED <<n, script, par, made, iters>>
Next == Iter \/ First \/ Stop \/ Decide \/ \E kd \in Kinds : Propose(kd)
Spec == Init /\ [][Next]_vars

\* ---- C06 ------------------------------------------------------------------------
ExactlyN == /\ Len(yields) <= n
            /\ pc = "done" => Len(yields) = n
StartsAtInitial == Len(yields) > 0 => yields[1].p = 0
StepsAreLegal == \A i \in 2..Len(yields) :
    \/ yields[i].how = "rejected" /\ yields[i].p = yields[i-1].p
    \/ yields[i].how = "accepted"
NothingInvalid == \A i \in DOMAIN yields : yields[i].how # "invalid"
AskedOncePerStep == pc \in {"ready", "done"} /\ yields # <<>> => asked = Len(yields) - 1
\* a state handed out leads to its direct predecessor at most
ShortLinks == yields # <<>> =>
    LET q == yields[Len(yields)].p IN
    \/ q = 0
    \/ par[q] = -1
    \/ par[q] = 0
    \/ par[par[q]] = -1
Emit == ~(pc = "done" /\ iters = MaxIters) \/ PrintT(ToJson([n |-> n, ops |-> script]))
==============================================================================

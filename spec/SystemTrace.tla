----------------------------- MODULE SystemTrace -----------------------------
(* Judges whole runs: a chain or an optimizer with the library's own         *)
(* proposals, constraints and acceptance rules, whose states are read at any *)
(* time.  Events, besides those of PlanTrace (new, read, obs, drop): built   *)
(* (the run was accepted or refused), iter, propose (the proposal made plan  *)
(* b of the current state; id: the plan it returned if that is not a new     *)
(* one), state (the run handed out plan id), stop, gaveup.                   *)
EXTENDS PlanTrace, ProposalDefs, RecomDefs
VARIABLE st
svars == <<vars, st>>
\* cur: the state handed out last; pend: the last proposal; given: all plans handed out
Fresh == [from |-> 1, cur |-> 0, cnt |-> 0, pend |-> 0, want |-> -1, given |-> {}]
Run == Eps[ep]
RG == Run.gs[1]
RE == EdgeSet(RG)
RK == plans[1].k
\* the initial plan, which may be a flip of another one
P0 == Run.first
A0 == plans[P0].a
Cuts(a) == Cardinality(CutEdges(RE, a))
PopIn(a, d) == TallyOf(RG, a, <<Run.pc>>, d)
Pops(a) == {PopIn(a, d) : d \in 1..RK}
Whole(a) == Cardinality({d \in 1..RK : Connected(RE, Level(a, d))})
Seats(a, ps) == Cardinality({d \in 1..RK : Won(RG, a, ps, 1, d)})

\* ---- constraints ----------------------------------------------------------------
Obeys(c, a, par) ==
    CASE c.c = "contig" -> Contiguous(RE, a, RK)
      [] c.c = "vanish" -> \A d \in 1..RK : Level(a, d) # {}
      [] c.c = "whole" -> Whole(a) >= Whole(A0)
      [] c.c = "pop" -> LET t == GraphTotal(RG, <<Run.pc>>) IN \A d \in 1..RK : 16 * Abs(RK * PopIn(a, d) - t) <= c.x * t
      [] c.c = "tol" -> 16 * (MaxOf(Pops(a)) - MinOf(Pops(a))) <= c.x * MinOf(Pops(a))
      [] c.c = "cutmax" -> Cuts(a) <= c.x
      [] c.c = "cutmin" -> Cuts(a) >= c.x
      [] c.c = "cutself" -> Cuts(a) <= Cuts(A0)
      [] c.c = "cutrange" -> 8 * Abs(Cuts(a) - Cuts(A0)) <= c.x * Cuts(A0)
      [] c.c = "nosplit" -> par = 0 \/ \A r \in Regions(RG, 1) : IsSplit(RG, a, 1, r) => IsSplit(RG, plans[par].a, 1, r)
      [] c.c = "seats" -> Seats(a, c.ps) >= c.x
Valid(a, par) == \A i \in DOMAIN Run.cons : Obeys(Run.cons[i], a, par)
\* new splits are new against the plan a plan was proposed from; what the initial plan came from does not matter here
ValidPlan(p) == Valid(plans[p].a, IF p <= P0 THEN 0 ELSE plans[p].par)

\* ---- what a proposal may do -------------------------------------------------------
Changed(a, b) == {v \in DOMAIN a : a[v] # b[v]}
Legal(a, b) ==
    CASE Run.prop \in {"random", "reversible", "bi"} -> \E m \in Moves(RE, a) : b = Move(a, m)
      [] Run.prop = "any" -> Cardinality(Changed(a, b)) <= 1
      [] Run.prop = "chunk" -> b \in Chunks(RE, a)
      [] Run.prop = "every" -> /\ \A v \in Changed(a, b) : b[v] \in NextDistricts(RE, a, v)
                               /\ Cardinality(Changed(a, b)) <= RK
      [] Run.prop = "recom" -> ValidRecom(RE, a, b, RG.cols[Run.pc], Run.t, Run.eps)
      [] Run.prop = "revrecom" -> a = b \/ ValidRecom(RE, a, b, RG.cols[Run.pc], Run.t, Run.eps)
      [] Run.prop = "spectral" -> \E p \in AdjacentPairs(RE, a) :
                /\ \A v \in DOMAIN a : IF a[v] \in p THEN b[v] \in p ELSE b[v] = a[v]
                /\ \A d \in p : Level(b, d) # {}
      [] Run.prop = "script" -> TRUE

\* ---- the run --------------------------------------------------------------------
JudgeBuilt(e) == NameIf(IF e.got = "ok" THEN Valid(A0, 0) ELSE ~Valid(A0, 0) \/ ~Valid(A0, plans[P0].par), "run-starts-from-valid-plans-only")
                 \cup NameIf(e.got \in {"ok", "ValueError"}, "refused-with-documented-error")
JudgeProposal(e) ==
    NameIf(e.from = st.cur, "proposed-from-current-state")
    \cup NameIf(e.id \in {0, st.cur}, "a-new-plan-or-the-current-one")
    \cup NameIf(e.id = 0 \/ e.b = plans[e.id].a, "current-plan-unchanged")
    \cup NameIf(\A v \in DOMAIN e.b : e.b[v] \in 1..RK, "known-districts")
    \cup NameIf(e.id # 0 \/ Legal(plans[st.cur].a, e.b), Run.prop \o ":legal-move")
    \cup NameIf(st.pend = 0 \/ ~ValidPlan(st.pend), "valid-proposal-is-decided")
    \cup NameIf(st.cnt < Run.N, "no-proposal-after-the-end")
\* what the optimizer maximizes
Score(p) == IF Run.metric = "fewcuts" THEN -Cuts(plans[p].a)
            ELSE IF Run.metric = "whole" THEN Whole(plans[p].a)
            ELSE MinOf(Pops(plans[p].a)) - MaxOf(Pops(plans[p].a))
IsBest(p) == p \in st.given /\ \A q \in st.given : Score(p) >= Score(q)
JudgeState(e) ==
    NameIf(e.id # 0, "a-plan-of-this-run")
    \cup NameIf(st.cnt < Run.N, "no-more-states-than-announced")
    \cup (IF e.id = 0 THEN {}
          ELSE NameIf(ValidPlan(e.id), "every-state-is-valid")
               \cup (IF st.cnt = 0 THEN NameIf(e.id = st.from, "starts-at-the-initial-plan")
                     ELSE IF Run.how = "chain" THEN
                          NameIf(st.pend # 0 /\ ValidPlan(st.pend), "a-step-needs-a-valid-proposal")
                          \cup (IF st.pend = 0 THEN {} ELSE
                                NameIf(e.id \in {st.pend, st.cur}, "accepted-or-unchanged")
                                \cup NameIf(Run.acc # "always" \/ e.id = st.pend, "valid-proposals-are-taken")
                                \cup NameIf(Run.acc # "cut" \/ Cuts(plans[st.pend].a) > Cuts(plans[st.cur].a) \/ e.id = st.pend, "fewer-cut-edges-are-taken")
                                \cup NameIf(st.want = -1 \/ e.id = (IF st.want = 1 THEN st.pend ELSE st.cur), "acceptance-is-obeyed"))
                     ELSE NameIf(e.id = st.pend \/ (e.id = st.cur /\ st.pend # 0 /\ ValidPlan(st.pend)) \/ IsBest(e.id), "a-step-or-the-best-plan")))
SJudge(e, m) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE CASE e.k = "built" -> JudgeBuilt(e)
           [] e.k = "iter" -> {}
           [] e.k = "propose" -> JudgeProposal(e)
           [] e.k = "state" -> JudgeState(e)
           [] e.k = "stop" -> NameIf(st.cnt = Run.N, "as-many-states-as-announced")
           [] e.k = "gaveup" -> NameIf(e.got \in ToSet(Run.may), "documented-error")
           [] OTHER -> Judge(e, m)
SInit == Init /\ st = Fresh
SNext ==
    /\ bad = {} /\ l <= Len(Ev)
    /\ LET e == Ev[l] IN
       /\ l' = l + 1 /\ ep' = ep
       /\ plans' = CASE e.k = "new" -> Append(plans, [g |-> e.g, k |-> e.kk, a |-> e.a, par |-> 0, f |-> <<>>, depth |-> 0])
                     [] e.k = "flip" ->
                          Append(plans, [g |-> 1, k |-> RK, a |-> Flipped(plans[e.p].a, PairsToFun(e.f)), par |-> e.p, f |-> e.f, depth |-> 0])
                     [] e.k = "propose" /\ e.exc = "" /\ e.id = 0 ->
                          Append(plans, [g |-> 1, k |-> RK, a |-> e.b, par |-> e.from, f |-> <<>>, depth |-> 0])
                     [] OTHER -> plans
       /\ memo' = CASE e.k \in {"new", "flip"} -> Append(memo, FreshMemo)
                    [] e.k = "propose" /\ e.exc = "" /\ e.id = 0 -> Append(memo, FreshMemo)
                    [] e.k = "drop" -> [memo EXCEPT ![e.p].cut = 1]
                    [] e.k = "read" /\ e.exc = "" /\ e.u = "cty" -> TouchCty(e.p, e.c)
                    [] OTHER -> memo
       /\ bad' = SJudge(e, memo')
       /\ st' = IF e.exc # "" THEN st
                ELSE CASE e.k = "iter" -> [Fresh EXCEPT !.from = e.from]
                       [] e.k = "propose" -> [st EXCEPT !.pend = IF e.id = 0 THEN Len(plans') ELSE e.id, !.want = e.want]
                       [] e.k = "state" -> [st EXCEPT !.cur = e.id, !.cnt = @ + 1, !.pend = 0, !.want = -1, !.given = @ \cup {e.id}]
                       [] OTHER -> st
Spec2 == SInit /\ [][SNext]_svars
==============================================================================

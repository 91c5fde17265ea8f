----------------------------- MODULE SystemModel -----------------------------
(* A whole run: plans that keep their values up to date lazily, constraints  *)
(* that read those values, a chain that throws invalid proposals away, and a *)
(* user who reads at any time.  TLC explores every run on a small graph; the *)
(* invariants say that what a run promises does not depend on which of the   *)
(* parts asked for a value first.                                            *)
EXTENDS Graphs, TLC, Json
CONSTANTS Shape, K, Pct,      \* population tolerance in sixteenths
          Cons,               \* subset of {"contig", "pop", "cutself"}
          MaxN, MaxOps, MaxFlip, Bug

N == IF Shape = "path3" THEN 3 ELSE 4
EE == CASE Shape = "path3" -> <<<<1, 2>>, <<2, 3>>>>
        [] Shape = "path4" -> <<<<1, 2>>, <<2, 3>>, <<3, 4>>>>
        [] Shape = "square" -> <<<<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 4>>>>
        [] Shape = "paw" -> <<<<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 4>>>>
E == ToSet(EE)
Pop == IF Shape = "path3" THEN <<1, 2, 1>> ELSE <<2, 1, 1, 2>>
Total == SumSeq(Pop)
\* a plan: its assignment, the plan it was flipped from (its own record, <<>> once the link is
\* dropped), the flip, and the values read so far (<<v>>, or <<>>)
Kinds == {"cut", "pop"}
Plan(a, par, f) == [a |-> a, par |-> par, f |-> f, cut |-> <<>>, pop |-> <<>>]

\* definitions
CutDef(a) == CutEdges(E, a)
PopDef(a) == [d \in 1..K |-> SumOver(Level(a, d), LAMBDA v : Pop[v])]
\* what a plan computes when a value is first asked for: from its parent's value if that is there
Moved(p) == {v \in DOMAIN p.f : p.par[1].a[v] # p.f[v]}
CutFrom(p, was) == (was \ {e \in E : (e[1] \in DOMAIN p.f \/ e[2] \in DOMAIN p.f) /\ Bug # "keeps-old-cuts"})
                   \cup {e \in E : (e[1] \in DOMAIN p.f \/ e[2] \in DOMAIN p.f) /\ Crosses(p.a, e)}
PopFrom(p, was) == [d \in 1..K |-> was[d]
                      + SumOver({v \in Moved(p) : p.f[v] = d}, LAMBDA v : Pop[v])
                      - SumOver({v \in Moved(p) : p.par[1].a[v] = d}, LAMBDA v : Pop[v])]
RECURSIVE Fill(_, _)
\* the plan p after its value of kind kd has been asked for; the parent's is asked for on the way
Fill(p, kd) ==
    IF p[kd] # <<>> THEN p
    ELSE IF p.par = <<>> THEN [p EXCEPT ![kd] = <<IF kd = "cut" THEN CutDef(p.a) ELSE PopDef(p.a)>>]
    ELSE LET q == Fill(p.par[1], kd)
             p2 == [p EXCEPT !.par = <<q>>]
         IN [p2 EXCEPT ![kd] = <<IF kd = "cut" THEN CutFrom(p2, q.cut[1]) ELSE PopFrom(p2, q.pop[1])>>]
Drop(p) == [p EXCEPT !.par = <<>>]

\* ---- the constraints, as the run decides them (asking for values), and as they are defined
Contig(p) == IF p.par = <<>> THEN Contiguous(E, p.a, K)
             ELSE \A d \in {p.a[v] : v \in DOMAIN p.f} \cup (IF Bug = "looks-at-target-only" THEN {} ELSE {p.par[1].a[v] : v \in DOMAIN p.f}) :
                    Connected(E, Level(p.a, d))
VARIABLES n, init, cur, pend, cnt, pc, out, bound, ops
vars == <<n, init, cur, pend, cnt, pc, out, bound, ops>>
InPop(x) == \A d \in 1..K : 16 * Abs(K * x[d] - Total) <= Pct * Total
Says(p, c) == CASE c = "contig" -> Contig(p)
                [] c = "pop" -> InPop(p.pop[1])
                [] c = "cutself" -> Cardinality(p.cut[1]) <= bound
Obeys(a, c) == CASE c = "contig" -> Contiguous(E, a, K)
                 [] c = "pop" -> InPop(PopDef(a))
                 [] c = "cutself" -> Cardinality(CutDef(a)) <= Cardinality(CutDef(init))
ValidDef(a) == \A c \in Cons : Obeys(a, c)
\* checking a plan asks for the values of its constraints
Needs(c) == CASE c = "contig" -> {} [] c = "pop" -> {"pop"} [] c = "cutself" -> {"cut"}
RECURSIVE FillAll(_, _)
FillAll(p, S) == IF S = {} THEN p ELSE LET x == CHOOSE y \in S : TRUE IN FillAll(Fill(p, x), S \ {x})
Checked(p) == FillAll(p, UNION {Needs(c) : c \in Cons})

Start(a) == /\ cur = Checked(Plan(a, <<>>, <<>>))
            /\ init = a
            /\ bound = Cardinality(CutDef(a))
Init == /\ n \in 2..MaxN
        /\ \E a \in [1..N -> 1..K] : (\A d \in 1..K : Level(a, d) # {}) /\ Start(a)
        /\ ValidDef(init)
        /\ pend = <<>> /\ cnt = 1 /\ pc = "ready" /\ out = <<init>> /\ ops = <<>>
Flips == UNION {[S -> 1..K] : S \in {T \in SUBSET (1..N) : T # {} /\ Cardinality(T) <= MaxFlip}}
Listed(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
FPairs(f) == LET q == Listed(DOMAIN f) IN [i \in DOMAIN q |-> <<q[i], f[q[i]]>>]
Propose(f) ==
    /\ pc = "ready" /\ cnt < n /\ Len(ops) < MaxOps
    /\ LET from == Drop(cur)
           p == Checked(Plan(Flipped(cur.a, f), <<from>>, f))
           ok == \A c \in Cons : Says(p, c)
       IN /\ pend' = <<p>>
          \* the values that checking asked of the current state stay there
          /\ cur' = IF Bug = "rejected-leaks" THEN [p.par[1] EXCEPT !.cut = p.cut] ELSE p.par[1]
          /\ pc' = IF ok \/ Bug = "takes-invalid" THEN "decide" ELSE "ready"
          /\ ops' = Append(ops, [o |-> IF ok THEN "?" ELSE "bad", f |-> FPairs(f)])
    /\ UNCHANGED <<n, init, cnt, out, bound>>
Decide(yes) ==
    /\ pc = "decide"
    /\ cur' = IF yes THEN pend[1] ELSE cur
    /\ out' = Append(out, cur'.a)
    /\ cnt' = cnt + 1 /\ pc' = "ready" /\ pend' = <<>>
    /\ ops' = [ops EXCEPT ![Len(ops)].o = IF yes THEN "yes" ELSE "no"]
    /\ UNCHANGED <<n, init, bound>>
Read(kd) ==
    /\ pc = "ready" /\ Len(ops) < MaxOps
    /\ cur[kd] = <<>>
    /\ cur' = Fill(cur, kd)
    /\ ops' = Append(ops, [o |-> "read", f |-> <<>>])
    /\ UNCHANGED <<n, init, pend, cnt, pc, out, bound>>
Next == (\E f \in Flips : Propose(f)) \/ (\E y \in BOOLEAN : Decide(y)) \/ (\E kd \in Kinds : Read(kd))
Spec == Init /\ [][Next]_vars

EveryStateValid == \A i \in DOMAIN out : ValidDef(out[i])
Exact(p) == /\ p.cut = <<>> \/ p.cut[1] = CutDef(p.a)
            /\ p.pop = <<>> \/ p.pop[1] = PopDef(p.a)
ValuesExact == Exact(cur) /\ (pend = <<>> \/ Exact(pend[1]))
CountsRight == Len(out) = cnt /\ cnt <= n
\* a proposal is taken to the decision exactly if it is valid
VerdictExact == pend = <<>> \/ (pc = "decide") = ValidDef(pend[1].a)
Emit == ~((cnt = n \/ Len(ops) = MaxOps) /\ pc = "ready" /\ Len(ops) > 0)
        \/ PrintT(ToJson([n |-> N, k |-> K, E |-> EE, pop |-> Pop, a |-> init, N |-> n, pct |-> Pct, cons |-> Listed(Cons), ops |-> ops]))
==============================================================================

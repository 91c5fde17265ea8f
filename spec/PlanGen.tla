------------------------------- MODULE PlanGen -------------------------------
(* Behaviours of PlanModel, written out as operations for the replay driver. *)
EXTENDS PlanModel, Json
VARIABLES hist, script, pos
CONSTANT Depth
FPairs(f) == LET q == CHOOSE s \in [1..Cardinality(DOMAIN f) -> DOMAIN f] :
                        \A i, j \in DOMAIN s : i # j => s[i] # s[j]
             IN [i \in 1..Cardinality(DOMAIN f) |-> <<q[i], f[q[i]]>>]
\* The kinds of steps are fixed first, so that flips, which are many, do not
\* crowd out the others.
Ops == {"flip", "read", "drop"}
GInit == /\ Init
         /\ hist = <<[o |-> "new", p |-> 0, a |-> plans[1].a, f |-> <<>>]>>
         /\ script \in {q \in [1..Depth -> Ops] : q[1] = "flip"}
         /\ pos = 1
Record(o, p, f) == hist' = Append(hist, [o |-> o, p |-> p, a |-> <<>>, f |-> f])
CanRead == \E p \in DOMAIN plans : \E kd \in Kinds : ~Has(plans, p, kd)
CanDrop == Drops /\ \E p \in DOMAIN plans : plans[p].par # 0
GNext == /\ pos <= Depth
         /\ pos' = pos + 1
         /\ UNCHANGED script
         /\ \/ /\ script[pos] = "flip"
               /\ \E p \in DOMAIN plans : \E f \in FlipSets : Flip(p, f) /\ Record("flip", p, FPairs(f))
            \/ /\ script[pos] = "read"
               /\ \E p \in DOMAIN plans : \E kd \in Kinds : Read(p, kd) /\ Record("read", p, <<>>)
            \/ /\ script[pos] = "drop"
               /\ \E p \in DOMAIN plans : Drop(p) /\ Record("drop", p, <<>>)
            \/ /\ \/ script[pos] = "flip" /\ Len(plans) >= MaxPlans
                  \/ script[pos] = "read" /\ ~CanRead
                  \/ script[pos] = "drop" /\ ~CanDrop
               /\ UNCHANGED <<plans, hist>>
Emit == pos <= Depth \/ PrintT(ToJson([n |-> N, k |-> K, E |-> EE, ops |-> hist]))
==============================================================================

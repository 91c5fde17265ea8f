----------------------------- MODULE SearchModel -----------------------------
(* The search for a balanced cut: up to MaxAttempts looks, a new tree after  *)
(* Repeats looks at one; and the choice of pairs of districts around it,     *)
(* where a pair that cannot be split is not tried again.                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Pairs, MaxAttempts, Repeats, Reselect, Bug
VARIABLES bad, pair, attempts, restarts, trees, pc, splittable
vars == <<bad, pair, attempts, restarts, trees, pc, splittable>>
Init == /\ bad = {} /\ pair = 0 /\ attempts = 0 /\ restarts = 0 /\ trees = 0
        /\ pc = "pick" /\ splittable \in SUBSET (1..Pairs)
Pick(p) == /\ pc = "pick" /\ Cardinality(bad) < Pairs
           /\ IF p \in bad /\ Bug # "retries" THEN UNCHANGED <<pair, pc>>
              ELSE pair' = p /\ pc' = "search"
           /\ attempts' = 0 /\ restarts' = 0 /\ trees' = 1
           /\ UNCHANGED <<bad, splittable>>
GiveUp == pc = "pick" /\ Cardinality(bad) = Pairs /\ pc' = "failed" /\ UNCHANGED <<bad, pair, attempts, restarts, trees, splittable>>
Redraw == /\ pc = "search" /\ attempts < MaxAttempts /\ restarts = Repeats
          /\ trees' = trees + 1 /\ restarts' = 0 /\ pc' = "look" /\ UNCHANGED <<bad, pair, attempts, splittable>>
Keep == /\ pc = "search" /\ attempts < MaxAttempts /\ restarts < Repeats
        /\ pc' = "look" /\ UNCHANGED <<bad, pair, attempts, restarts, trees, splittable>>
Found == pc = "look" /\ pair \in splittable /\ pc' = "split" /\ UNCHANGED <<bad, pair, attempts, restarts, trees, splittable>>
NotFound == /\ pc = "look" /\ attempts' = (IF Bug = "endless" /\ Repeats > 1 THEN attempts ELSE attempts + 1)
            /\ restarts' = restarts + 1 /\ pc' = "search"
            /\ UNCHANGED <<bad, pair, trees, splittable>>
Exhausted == /\ pc = "search" /\ attempts = MaxAttempts
             /\ IF Reselect THEN bad' = bad \cup {pair} /\ pc' = "pick" ELSE bad' = bad /\ pc' = "error"
             /\ UNCHANGED <<pair, attempts, restarts, trees, splittable>>
Next == (\E p \in 1..Pairs : Pick(p)) \/ GiveUp \/ Redraw \/ Keep \/ Found \/ NotFound \/ Exhausted
\* every pair keeps being drawn; the rest of the search goes on
Fair == /\ \A p \in 1..Pairs : SF_vars(Pick(p) /\ pc' = "search")
        /\ WF_vars(GiveUp \/ Redraw \/ Keep \/ Found \/ NotFound \/ Exhausted)
Spec == Init /\ [][Next]_vars /\ Fair
\* C10, C12
Bounded == attempts <= MaxAttempts
TreesBounded == trees <= MaxAttempts + 1
SplitsOnlySplittable == pc = "split" => pair \in splittable
FailsOnlyAfterAll == pc = "failed" => bad = 1..Pairs
NeverRetried == pc \in {"search", "look"} => pair \notin bad
Ends == <>(pc \in {"split", "failed", "error"})
FailsIfImpossible == (splittable = {} /\ Reselect) => <>(pc = "failed")
==============================================================================

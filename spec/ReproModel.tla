------------------------------- MODULE ReproModel -------------------------------
(* Runs that draw from one seeded stream, in processes with a past.  A process *)
(* holds its random stream (seed and position) and leftovers of earlier work   *)
(* (caches, scratch data on the graph); a fresh one has none.  A step of a run  *)
(* looks at the next value of the stream and at data of the plan, which was     *)
(* put there either by the caller or by an earlier step of the same run.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Seeds, MaxLen, Bug
VARIABLES stream, left, cur, runs
vars == <<stream, left, cur, runs>>
Value(s, i) == (7 * s + 3 * i) % 5              \* what a stream gives at a position
Init == /\ stream \in [Procs -> {<<9, 0>>, <<8, 1>>}]    \* unseeded: anything
        /\ left = [p \in Procs |-> 0] /\ cur = [p \in Procs |-> <<>>] /\ runs = {}
Pos(p) == stream[p][2]
Draw(p) == stream' = [stream EXCEPT ![p] = <<@[1], @[2] + 1>>]
\* other work: draws from the stream, fills caches; only between runs
Work(p) == cur[p] = <<>> /\ Pos(p) < 2 /\ Draw(p) /\ left' = [left EXCEPT ![p] = 1] /\ UNCHANGED <<cur, runs>>
Start(p) == \E s \in Seeds :
    /\ cur[p] = <<>> /\ stream' = [stream EXCEPT ![p] = <<s, 0>>]
    /\ cur' = [cur EXCEPT ![p] = <<[seed |-> s, out |-> <<>>]>>]
    /\ UNCHANGED <<left, runs>>
Out(p) == IF Bug = "leftovers" THEN Value(stream[p][1], Pos(p)) + left[p] ELSE IF Bug = "other-stream" /\ Pos(p) = 2 THEN p ELSE Value(stream[p][1], Pos(p))
Step(p) == /\ cur[p] # <<>> /\ Len(cur[p][1].out) < MaxLen
           /\ cur' = [cur EXCEPT ![p][1].out = Append(@, Out(p))]
           /\ Draw(p) /\ left' = [left EXCEPT ![p] = 1] /\ UNCHANGED runs
End(p) == /\ cur[p] # <<>> /\ cur[p][1].out # <<>>
          /\ runs' = runs \cup {cur[p][1]} /\ cur' = [cur EXCEPT ![p] = <<>>] /\ UNCHANGED <<stream, left>>
Next == \E p \in Procs : Work(p) \/ Start(p) \/ Step(p) \/ End(p)
Spec == Init /\ [][Next]_vars
\* ---- C21 -----------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
All == runs \cup {cur[p][1] : p \in {q \in Procs : cur[q] # <<>>}}
Reproducible == \A r, s \in All : r.seed = s.seed => Prefix(r.out, s.out) \/ Prefix(s.out, r.out)
==============================================================================

------------------------------- MODULE ReproTrace -------------------------------
(* Runs of the same job under the same seed: in fresh processes, in a process  *)
(* with a past, on a graph used before.  The first run seen sets the sequence;  *)
(* every other has to repeat it.                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, first, bad
vars == <<ep, l, first, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE NameIf(first = <<>> \/ e.out = first[1].out, "same-seed-same-run")
                 \cup NameIf(first = <<>> \/ e.next = first[1].next, "same-draws-from-the-stream")
                 \cup NameIf(e.graph = 1, "graph-left-as-it-was")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {} /\ first = <<>>
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ first' = IF first = <<>> THEN <<Ev[l]>> ELSE first
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

------------------------------- MODULE DataModel -------------------------------
(* A graph whose columns are added to, joined, saved, loaded and used in a     *)
(* plan.  join goes through the nodes one by one, but nothing is written before *)
(* every node has found its row.                                               *)
EXTENDS DataDefs, TLC
CONSTANTS N, C, V, Depth, Bug
VARIABLES A, frozen, saved, last
vars == <<A, frozen, saved, last>>
Tables == \* rows for up to two keys; values of all columns
    LET Row == [key : 1..V, val : [1..C -> 1..V]] IN
    {<<>>} \cup {<<r>> : r \in Row} \cup {<<[key |-> 1, val |-> r], [key |-> 2, val |-> s]>> : r, s \in [1..C -> 1..V]}
Init == /\ A \in [1..N -> [1..C -> 0..V]]
        /\ frozen \in BOOLEAN /\ saved = <<>> /\ last = [op |-> "none", old |-> A, cols |-> {}, hit |-> {}, ok |-> TRUE]
Done(op, cols, hit, ok) == last' = [op |-> op, old |-> A, cols |-> cols, hit |-> hit, ok |-> ok]
Add == \E rows \in Tables, cols \in SUBSET (1..C) :
    IF frozen /\ Bug # "thaw" THEN UNCHANGED A /\ Done("add", cols, {}, FALSE)
    ELSE A' = Updated(A, rows, 0, IF Bug = "all-columns" THEN 1..C ELSE cols) /\ Done("add", cols, Matched(A, rows, 0), TRUE)
Join == \E rows \in Tables, cols \in SUBSET (1..C), left \in 0..C :
    IF frozen THEN UNCHANGED A /\ Done("join", cols, {}, FALSE)
    ELSE IF AllMatched(A, rows, left) THEN A' = Updated(A, rows, left, cols) /\ Done("join", cols, Matched(A, rows, left), TRUE)
    ELSE A' = (IF Bug = "partial" THEN Updated(A, rows, left, cols) ELSE A) /\ Done("join", cols, {}, FALSE)
Save == saved' = A /\ UNCHANGED A /\ Done("save", {}, {}, TRUE)
Load == saved # <<>> /\ A' = saved /\ UNCHANGED saved /\ Done("load", {}, {}, TRUE)
Use == frozen' = TRUE /\ UNCHANGED A /\ Done("use", {}, {}, TRUE)
Next == \/ (Add \/ Join) /\ UNCHANGED <<frozen, saved>>
        \/ Save /\ UNCHANGED frozen
        \/ Load /\ frozen' = FALSE
        \/ Use /\ UNCHANGED saved
Spec == Init /\ [][Next]_vars
\* ---- C20 ---------------------------------------------------------------------
OnlyRequested == last.op \in {"add", "join"} =>
                     \A v \in 1..N, c \in 1..C : c \notin last.cols \/ v \notin last.hit => A[v][c] = last.old[v][c]
FailedLeavesAll == ~last.ok => A = last.old
LoadedIsSaved == last.op = "load" => A = saved
ReadsLeaveAll == last.op \in {"save", "use"} => A = last.old
FrozenStays == [][frozen /\ frozen' => A' = A]_vars
Bounded == TLCGet("level") <= Depth
==============================================================================

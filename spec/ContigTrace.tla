----------------------------- MODULE ContigTrace -----------------------------
(* Judges the answers of the contiguity checks.  An episode has n, E, k; the *)
(* state keeps the current plan a, the one it was flipped from (prev, <<>>   *)
(* if none), and the first counts seen by the rules against discontiguity.   *)
EXTENDS Graphs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, a, prev, f, first, bad
vars == <<ep, l, a, prev, f, first, bad>>
Ev == Eps[ep].ev
E == ToSet(Eps[ep].E)
K == Eps[ep].k
NameIf(c, name) == IF c THEN {} ELSE {name}
Bit(c) == IF c THEN 1 ELSE 0
Whole == Contiguous(E, a, K)
GoodParts == Cardinality({d \in 1..K : Connected(E, Level(a, d))})
ParentFine == prev = <<>> \/ Contiguous(E, prev, K)
AdjacentFlip == /\ Cardinality(DOMAIN f) = 1
                /\ \A v \in DOMAIN f : /\ prev[v] # f[v]
                                       /\ \E u \in Nbrs(E, v) : prev[u] = f[v]
Comps(c) == [i \in DOMAIN c |-> {ToSet(c[i][j]) : j \in DOMAIN c[i]}]
Judge(e) ==
    IF e.exc # "" THEN {"raised:" \o e.exc}
    ELSE CASE e.k = "plan" -> {}
           [] e.k = "flip" -> {}
           [] e.k = "gone" -> {}
           [] e.k = "contiguous" -> NameIf(ParentFine => e.ans = Bit(Whole), "contiguous-exact")
           [] e.k = "bfs" -> NameIf(ParentFine => e.ans = Bit(Whole), "contiguous-bfs-exact")
           [] e.k = "single" -> NameIf((prev = <<>> \/ (ParentFine /\ AdjacentFlip)) => e.ans = Bit(Whole), "single-flip-exact")
           [] e.k = "count" -> NameIf(e.ans = GoodParts, "number-of-contiguous-parts")
           [] e.k = "comps" ->
                NameIf(/\ Len(e.val) = K
                       /\ \A d \in 1..K : LET want == Components(E, Level(a, d))
                                          IN {ToSet(e.val[d][j]) : j \in DOMAIN e.val[d]} = want
                                             /\ Len(e.val[d]) = Cardinality(want)
                                             /\ \A j \in DOMAIN e.val[d] : Len(e.val[d][j]) = Cardinality(ToSet(e.val[d][j])),
                       "components-exact")
           [] e.k = "rule" ->
                LET m == IF e.o \in DOMAIN first THEN first[e.o] ELSE GoodParts
                IN NameIf(e.ans = Bit(GoodParts >= m), "no-more-discontiguous")
Init == /\ ep \in 1..Len(Eps) /\ l = 1
        /\ a = <<>> /\ prev = <<>> /\ f = <<>> /\ first = <<>> /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ LET e == Ev[l] IN
           /\ IF e.exc # "" THEN UNCHANGED <<a, prev, f, first>>
              ELSE CASE e.k = "plan" -> a' = e.a /\ prev' = <<>> /\ f' = <<>> /\ UNCHANGED first
                     [] e.k = "flip" -> /\ f' = PairsToFun(e.f) /\ prev' = e.from
                                        /\ a' = Flipped(e.from, PairsToFun(e.f)) /\ UNCHANGED first
                     [] e.k = "gone" -> prev' = <<>> /\ f' = <<>> /\ UNCHANGED <<a, first>>
                     [] e.k = "rule" /\ e.o \notin DOMAIN first ->
                            /\ first' = [o \in DOMAIN first \cup {e.o} |-> IF o = e.o THEN GoodParts ELSE first[o]]
                            /\ UNCHANGED <<a, prev, f>>
                     [] OTHER -> UNCHANGED <<a, prev, f, first>>
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

-------------------------------- MODULE GeoModel --------------------------------
(* Building the dual graph of every small map: the polygons are intersected   *)
(* pair by pair, then the rim is found and its length computed as what is left *)
(* of a polygon's outline after all shared lengths have been taken off.        *)
EXTENDS GeoDefs, TLC
CONSTANTS CX, CY, N, Rule, Wid, Bug
VARIABLES o, todo, adj, rim
vars == <<o, todo, adj, rim>>
W == [x \in 1..CX |-> IF x = 1 THEN Wid ELSE 1]
H == [y \in 1..CY |-> 1]
Pairs == {e \in (1..N) \X (1..N) : e[1] < e[2]}
Outline(i) == SumOver({j \in 0..N : j # i}, LAMBDA j : SharedLen(o, W, H, i, j))
Init == /\ o \in {f \in [1..CX -> [1..CY -> 0..N]] : \A i \in 1..N : Cells(f, i) # {}}
        /\ todo = Pairs /\ adj = {} /\ rim = <<>>
Intersect == \E e \in todo :
    /\ \A f \in todo : e[1] < f[1] \/ (e[1] = f[1] /\ e[2] <= f[2])
    /\ todo' = todo \ {e}
    /\ LET len == SharedLen(o, W, H, e[1], e[2])
           keep == IF Rule = "rook" /\ Bug # "corner" THEN len > 0 ELSE Touch(o, e[1], e[2])
       IN adj' = IF keep THEN adj \cup {<<e[1], e[2], len>>} ELSE adj
    /\ UNCHANGED <<o, rim>>
Left(i) == Outline(i) - SumOver({t \in adj : t[1] = i \/ t[2] = i}, LAMBDA t : IF Bug = "twice" /\ t[1] = i THEN 2 * t[3] ELSE t[3])
Rim == /\ todo = {} /\ rim = <<>>
       /\ rim' = [i \in 1..N |-> IF (IF Bug = "flag" THEN Left(i) > 0 ELSE OnRim(o, i)) THEN Left(i) ELSE 0 - 1]
       /\ UNCHANGED <<o, todo, adj>>
Next == Intersect \/ Rim
Spec == Init /\ [][Next]_vars
\* ---- C20 ------------------------------------------------------------------------
EdgesRight == todo = {} => adj = {<<e[1], e[2], SharedLen(o, W, H, e[1], e[2])>> : e \in EdgeSet(o, W, H, N, Rule)}
RimRight == rim # <<>> => \A i \in 1..N : ((rim[i] >= 0) = OnRim(o, i)) /\ (OnRim(o, i) => rim[i] = RimLen(o, W, H, i))
Symmetric == \A e \in Pairs : SharedLen(o, W, H, e[1], e[2]) = SharedLen(o, W, H, e[2], e[1])
RookIsQueen == EdgeSet(o, W, H, N, "rook") \subseteq EdgeSet(o, W, H, N, "queen")
RimIffLength == \A i \in 1..N : RimLen(o, W, H, i) > 0 => OnRim(o, i)
==============================================================================

------------------------------- MODULE DataTrace -------------------------------
(* Follows a real graph through additions, joins, copies, saving and loading,  *)
(* and use in a plan.  Every event shows the columns, edges and edge data of    *)
(* the graph afterwards; values and edge data are numbered (0: none).           *)
EXTENDS DataDefs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, A, bad
vars == <<ep, l, A, bad>>
Ev == Eps[ep].ev
H == Eps[ep]
NameIf(c, name) == IF c THEN {} ELSE {name}
Same(e) == NameIf(e.nodes = H.nodes, "same-nodes")
           \cup NameIf(ToSet(e.edges) = ToSet(H.edges) /\ Len(e.edges) = Len(H.edges), "same-edges-and-edge-data")
Rows(e) == e.rows
Expect(e) ==
    CASE e.k0 = "add" /\ e.frozen = 0 -> {Updated(A, e.rows, 0, ToSet(e.cols))}
      [] e.k0 = "join" /\ e.frozen = 0 -> IF AllMatched(A, e.rows, e.left) THEN {Updated(A, e.rows, e.left, ToSet(e.cols))}
                                       ELSE {A}
      [] e.k0 = "json" -> {[v \in DOMAIN A |-> [c \in DOMAIN A[v] |-> IF c = H.geo /\ e.keep = 0 THEN 0 ELSE A[v][c]]]}
      [] e.k0 = "set" -> {[A EXCEPT ![e.node][e.col] = e.value]}
      [] OTHER -> {A}
NoErr(e) == CASE e.k0 \in {"add", "join"} /\ e.frozen = 1 -> NameIf(e.res # "ok", "graph-of-a-plan-refuses-changes")
              [] e.k0 = "mutate" -> NameIf(e.res # "ok", "graph-of-a-plan-refuses-changes")
              [] e.k0 = "join" /\ ~AllMatched(A, e.rows, e.left) -> {}
              [] OTHER -> NameIf(e.res = "ok", "raised:" \o e.res)
Warn(e) == IF e.k0 \in {"add", "join"} /\ e.res = "ok" THEN NameIf(ToSet(e.warned) = ToSet(e.nacols), "missing-values-warned-about") ELSE {}
\* what the frozen graph of a plan shows
E == {<<t[1], t[2]>> : t \in ToSet(H.edges)}
View(e) == IF e.k0 # "view" THEN {}
           ELSE NameIf(\A v \in DOMAIN A : ToSet(e.nbrs[v]) = Nbrs(E, v) /\ Len(e.nbrs[v]) = Deg(E, v) /\ e.deg[v] = Deg(E, v), "plan-graph-neighbours")
                \cup NameIf({Edge(t[1], t[2]) : t \in ToSet(e.subedges)} = Induced(E, ToSet(e.sub)) /\ ToSet(e.subnodes) = ToSet(e.sub), "plan-graph-subgraph")
                \cup NameIf(e.look = A, "plan-graph-lookup")
                \cup NameIf(ToSet(e.isl) = {v \in DOMAIN A : Deg(E, v) = 0}, "islands")
\* The table of node data that a graph keeps shows the values last added (for the rows it has)
Table(e) == IF e.k0 # "add" \/ e.frozen = 1 \/ e.res # "ok" THEN {}
            ELSE NameIf(\A i \in DOMAIN e.rows : e.table[i] = <<>> \/ \A j \in DOMAIN e.cols : e.table[i][j] = e.rows[i].val[e.cols[j]],
                        "table-shows-the-values-added")
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE NoErr(e) \cup Warn(e) \cup Same(e) \cup View(e) \cup Table(e)
                 \cup NameIf(e.A \in Expect(e), "columns-after-" \o e.k0)
                 \cup NameIf(e.other = 1, "the-source-is-left-alone")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {} /\ A = Eps[ep].A
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ A' = IF bad' = {} THEN Ev[l].A ELSE A
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

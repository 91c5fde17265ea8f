------------------------------- MODULE DataDefs -------------------------------
(* Data on the nodes of a graph: A[v][c] is the value of column c at node v,   *)
(* 0 if v has no such column.  A table has rows [key, val]: val[c] is the      *)
(* value in column c.  Matched by node (add) or by the value of a column (join).*)
EXTENDS Integers, Sequences, FiniteSets, Graphs
\* rows of the table whose key is k (at most one)
RowsFor(rows, k) == {i \in DOMAIN rows : rows[i].key = k}
TheRow(rows, k) == rows[CHOOSE i \in DOMAIN rows : rows[i].key = k]
Key(A, v, left) == IF left = 0 THEN v ELSE A[v][left]
\* nodes that take part: all of them, or those that have the left column
Takes(A, left) == {v \in DOMAIN A : left = 0 \/ A[v][left] # 0}
Matched(A, rows, left) == {v \in Takes(A, left) : RowsFor(rows, Key(A, v, left)) # {}}
Updated(A, rows, left, cols) ==
    [v \in DOMAIN A |-> IF v \in Matched(A, rows, left)
                        THEN [c \in DOMAIN A[v] |-> IF c \in cols THEN TheRow(rows, Key(A, v, left)).val[c] ELSE A[v][c]]
                        ELSE A[v]]
AllMatched(A, rows, left) == Matched(A, rows, left) = Takes(A, left)
==============================================================================

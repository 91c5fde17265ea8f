-------------------------------- MODULE GeoDefs --------------------------------
(* Maps drawn on a lattice: owner[x][y] is the polygon (1..n) that holds cell  *)
(* <<x, y>>, or 0; W[x] and H[y] are the width and height of the cells.        *)
(* Everything a dual graph reports is defined on this.                         *)
EXTENDS Integers, Sequences, FiniteSets, Graphs
At(o, x, y) == IF x \in DOMAIN o /\ y \in DOMAIN o[1] THEN o[x][y] ELSE 0
Cells(o, i) == {c \in (DOMAIN o) \X (DOMAIN o[1]) : o[c[1]][c[2]] = i}
Area(o, W, H, i) == SumOver(Cells(o, i), LAMBDA c : W[c[1]] * H[c[2]])
\* length of the sides of cell c across which the owner is j
SideTo(o, W, H, c, j) ==
    LET x == c[1] y == c[2] IN
      (IF At(o, x - 1, y) = j THEN H[y] ELSE 0) + (IF At(o, x + 1, y) = j THEN H[y] ELSE 0)
    + (IF At(o, x, y - 1) = j THEN W[x] ELSE 0) + (IF At(o, x, y + 1) = j THEN W[x] ELSE 0)
SharedLen(o, W, H, i, j) == SumOver(Cells(o, i), LAMBDA c : SideTo(o, W, H, c, j))
RimLen(o, W, H, i) == SharedLen(o, W, H, i, 0)
\* lattice points of a polygon; <<x, y>> is the corner between cells x, x+1 and y, y+1
Corners(o, i) == UNION {{<<c[1] - 1, c[2] - 1>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] - 1>>, <<c[1], c[2]>>} : c \in Cells(o, i)}
Touch(o, i, j) == Corners(o, i) \cap Corners(o, j) # {}
RimPoint(o, p) == \E dx, dy \in 0..1 : At(o, p[1] + dx, p[2] + dy) = 0
OnRim(o, i) == \E p \in Corners(o, i) : RimPoint(o, p)
Adjacent(o, W, H, i, j, rule) == IF rule = "rook" THEN SharedLen(o, W, H, i, j) > 0 ELSE Touch(o, i, j)
EdgeSet(o, W, H, n, rule) == {e \in (1..n) \X (1..n) : e[1] < e[2] /\ Adjacent(o, W, H, e[1], e[2], rule)}
==============================================================================

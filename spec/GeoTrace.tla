-------------------------------- MODULE GeoTrace --------------------------------
(* Judges dual graphs built from drawn maps (k0 = "graph"), maps that have to  *)
(* be refused or warned about, and UTM zones.  Lengths come in map units.      *)
EXTENDS GeoDefs, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, bad
vars == <<ep, l, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
JudgeGraph(e) ==
    LET o == e.owner n == e.n IN
    NameIf(e.found = n /\ e.foreign = 0, "one-node-per-polygon")
    \cup NameIf({<<t[1], t[2]>> : t \in ToSet(e.edges)} = EdgeSet(o, e.W, e.H, n, e.rule), "edges-are-the-adjacent-pairs")
    \cup NameIf(\A t \in ToSet(e.edges) : t[3] = SharedLen(o, e.W, e.H, t[1], t[2]), "shared-lengths")
    \cup NameIf(\A i \in 1..n : e.area[i] = Area(o, e.W, e.H, i), "areas")
    \cup NameIf(\A i \in 1..n : (e.rim[i] = 1) = OnRim(o, i), "rim-flags")
    \cup NameIf(\A i \in 1..n : OnRim(o, i) => e.bper[i] = RimLen(o, e.W, e.H, i), "rim-lengths")
    \cup NameIf(\A i \in 1..n : e.cols[i] = e.want[i], "requested-columns-on-their-nodes")
    \cup NameIf(e.tab = e.want, "table-mirrors-the-nodes")
    \cup NameIf(e.shapes = e.drawn, "shapes-kept")
    \cup NameIf((e.islands = 1) = (\E i \in 1..n : \A t \in EdgeSet(o, e.W, e.H, n, e.rule) : i # t[1] /\ i # t[2]), "islands-reported")
    \cup NameIf(e.overlap = 0, "no-overlap-reported")
    \cup NameIf(e.crs = 1, "reference-system-kept")
JudgeQuad(e) == \* default plan of a grid: quadrants at half the width and height
    NameIf(\A x \in DOMAIN e.q : \A y \in DOMAIN e.q[x] :
               e.q[x][y] = (IF x <= e.w \div 2 THEN 0 ELSE 1) + (IF y <= e.h \div 2 THEN 0 ELSE 2), "quadrants")
\* the picture of a plan: every shape carries the district of its node
JudgePlot(e) == NameIf({t[1] : t \in ToSet(e.shown)} = DOMAIN e.asg /\ \A t \in ToSet(e.shown) : t[1] = 0 \/ e.asg[t[1]] = t[2], "picture-shows-the-plan")
                \cup NameIf(e.refused = 1, "shapes-of-other-nodes-refused")
Refused(e) == NameIf((e.res = "GeometryError") = (e.invalid = 1), "invalid-geometries-refused")
              \cup NameIf(e.res = "GeometryError" => ToSet(e.named) = ToSet(e.rows), "invalid-rows-named")
Overlap(e) == NameIf((e.warned = 1) = (e.overlapping = 1), "overlaps-reported")
\* longitude and latitude in quarters of a degree
Zone(lat, lon) == IF lat >= 224 /\ lat < 256 /\ lon >= 12 /\ lon < 48 THEN 32
                  ELSE IF lat >= 288 /\ lat <= 336 /\ lon >= 0 /\ lon < 168
                       THEN IF lon < 36 THEN 31 ELSE IF lon < 84 THEN 33 ELSE IF lon < 132 THEN 35 ELSE 37
                  ELSE ((lon + 720) \div 24) + 1
JudgeZone(e) == NameIf(e.zone = Zone(e.lat, e.lon), "utm-zone")
Count(s, z) == Cardinality({i \in DOMAIN s : Zone(s[i][1], s[i][2]) = z})
JudgeMajor(e) == NameIf(\A z \in {Zone(e.pts[i][1], e.pts[i][2]) : i \in DOMAIN e.pts} : Count(e.pts, z) <= Count(e.pts, e.zone), "zone-of-most-polygons")
                 \cup NameIf(e.areas = 1, "areas-in-square-metres")
Judge(e) == IF e.exc # "" THEN {"raised:" \o e.exc}
            ELSE CASE e.k0 = "graph" -> JudgeGraph(e) [] e.k0 = "quad" -> JudgeQuad(e) [] e.k0 = "plot" -> JudgePlot(e) [] e.k0 = "refused" -> Refused(e)
                   [] e.k0 = "overlap" -> Overlap(e)
                   [] e.k0 = "told" -> NameIf(e.warned = e.overlapping, "refused-exactly-when-it-has-to-be")
                   [] e.k0 = "zone" -> JudgeZone(e) [] e.k0 = "major" -> JudgeMajor(e)
Init == ep \in 1..Len(Eps) /\ l = 1 /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

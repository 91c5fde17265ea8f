---------------------------- MODULE UpdatersTrace ----------------------------
(* Which updaters a plan reports: exactly those it was made with (and what   *)
(* its class adds), whatever other plans were made with.  own: plan -> name  *)
(* -> number of the function given for it: 0..5 always answer their number,  *)
(* 6 counts the flips since the first plan (from the parent's value), 7 asks *)
(* whether there is a parent, 8 for the number of nodes flipped, 9 which     *)
(* plan it is.  up: plan -> its parent, or 0;  fl: nodes flipped.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == JsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, own, up, fl, bad
vars == <<ep, l, own, up, fl, bad>>
Ev == Eps[ep].ev
NameIf(c, name) == IF c THEN {} ELSE {name}
Has(p, x) == x \in {own[p][i][1] : i \in DOMAIN own[p]}
RECURSIVE Steps(_)
Steps(p) == IF up[p] = 0 THEN 0 ELSE Steps(up[p]) + 1
Given(p, x) == LET i == CHOOSE j \in DOMAIN own[p] : own[p][j][1] = x IN own[p][i][2]
Val(p, x) == LET f == Given(p, x) IN
             CASE f = 6 -> 100 + Steps(p)
               [] f = 7 -> IF up[p] = 0 THEN 51 ELSE 50
               [] f = 8 -> 70 + fl[p]
               [] f = 9 -> 200 + p
               [] OTHER -> f
Judge(e) ==
    CASE e.k = "make" -> NameIf(e.exc = "", "raised:" \o e.exc)
      [] e.k = "flip" -> NameIf(e.exc = "", "raised:" \o e.exc)
      \* a value (got = number of the function that computed it), or an error for an updater it does not have
      [] e.k = "read" -> IF Has(e.p, e.x) THEN NameIf(e.exc = "" /\ e.got = Val(e.p, e.x), "reports-own-updaters")
                         ELSE NameIf(e.exc # "", "reports-no-other-updaters")
Init == ep \in 1..Len(Eps) /\ l = 1 /\ own = <<>> /\ up = <<>> /\ fl = <<>> /\ bad = {}
Next == /\ bad = {} /\ l <= Len(Ev)
        /\ l' = l + 1 /\ ep' = ep
        /\ bad' = Judge(Ev[l])
        /\ LET e == Ev[l] IN
           own' = IF e.exc # "" THEN own
                  ELSE CASE e.k = "make" -> Append(own, e.ups)
                         [] e.k = "flip" -> Append(own, own[e.p])
                         [] OTHER -> own
        /\ LET e == Ev[l]
               new == e.exc = "" /\ e.k \in {"make", "flip"} IN
           /\ up' = IF new THEN Append(up, IF e.k = "flip" THEN e.p ELSE 0) ELSE up
           /\ fl' = IF new THEN Append(fl, IF e.k = "flip" THEN e.n ELSE 0) ELSE fl
Spec == Init /\ [][Next]_vars
Holds == bad = {}
==============================================================================

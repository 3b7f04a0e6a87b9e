------------------------------ MODULE PlacesMC ------------------------------
(* Two or three locations on a grid.  The distances of the specification are   *)
(* checked for being a metric on the points where it knows them, and equality  *)
(* for being an equivalence; each pair is also asked of the real code.          *)
EXTENDS Places, Json
CONSTANTS Third
VARIABLES cfg, p, q, r
G(a, b, c, k, f) == [kind |-> "g", a |-> a, b |-> b, c |-> c, e |-> 0, k |-> k, f |-> f]
C(a, b, c, e, f) == [kind |-> "c", a |-> a, b |-> b, c |-> c, e |-> e, k |-> 0, f |-> f]
Geo == {G(a, b, 0, k, f) : a \in {-90, 0, 45, 90}, b \in {-90, 0, 60, 180}, k \in {0, 1}, f \in BOOLEAN}
       \cup {G(0, 0, c, 0, f) : c \in {3000, -7}, f \in BOOLEAN}
Car == {C(a, b, c, e, f) : a \in {0, 3}, b \in {0, -4}, c \in {0, 12}, e \in {0}, f \in {FALSE}}
       \cup {C(a, 0, c, e, TRUE) : a \in {0, 3}, c \in {0, 12000}, e \in {0, 1, 100}}
Cfgs == {[du |-> "km", au |-> "m", model |-> "s", data |-> <<>>], [du |-> "nmi", au |-> "ft", model |-> "w", data |-> <<>>], [du |-> "", au |-> "", model |-> "", data |-> <<>>]}
S0 == PlacesInit(cfg)
MCInit == /\ cfg \in Cfgs
          /\ p \in Geo \cup Car
          /\ q \in Geo \cup Car
          /\ r \in IF Third THEN Geo \cup Car ELSE {p}
MCNext == UNCHANGED <<cfg, p, q, r>>
MCSpec == MCInit /\ [][MCNext]_<<cfg, p, q, r>>
Ang(a, b) == a.kind = "g" /\ b.kind = "g" /\ Known(S0, a, b)
Here(a, b) == a.kind = "c" /\ b.kind = "c" /\ HOk(S0, a) /\ HOk(S0, b) /\ a.e = 0 /\ b.e = 0
Angle_(a, b) == IF DLon(a, b) = 0 /\ a.a = b.a THEN 0 ELSE Angle(a, b)
Metric == /\ Ang(p, q) => /\ Angle_(p, q) = Angle_(q, p) /\ Angle_(p, q) \in 0..180
                          /\ (Angle_(p, q) = 0) = (p.a = q.a /\ (Pole(p) \/ DLon(p, q) = 0))
          /\ Ang(p, q) /\ Ang(q, r) /\ Ang(p, r) => Angle_(p, r) <= Angle_(p, q) + Angle_(q, r)
          /\ Here(p, q) => Dist2(S0, p, q) = Dist2(S0, q, p) /\ Dist2(S0, p, q) >= 0
          (* sqrt(x) <= sqrt(y) + sqrt(z) without roots *)
          /\ Here(p, q) /\ Here(q, r) /\ Here(p, r) => LET x == Dist2(S0, p, r)  y == Dist2(S0, p, q)  z == Dist2(S0, q, r) IN x <= y + z \/ (x - y - z) * (x - y - z) <= 4 * y * z
          /\ p.kind = "g" /\ q.kind = "g" /\ S0.cfg.model # "" /\ ChordOk(S0, p, q) =>
                /\ Chord2(p, q) = Chord2(q, p)
                /\ Chord2(p, q) >= (p.k - q.k) * (p.k - q.k)
                /\ (Chord2(p, q) = 0) = (Angle_(p, q) = 0 /\ p.k = q.k)
Equality == /\ Same(p, p) /\ Same(p, q) = Same(q, p) /\ (Same(p, q) /\ Same(q, r) => Same(p, r))
            /\ Same(p, q) /\ Ang(p, q) => Angle_(p, q) = 0
(* the answers the specification accepts do not depend on the order asked *)
PrintProg == Third \/ PrintT("PROGRAM " \o ToJson([cfg |-> cfg, ops |-> <<[op |-> "new", l |-> p], [op |-> "new", l |-> q], [op |-> "eq", i |-> 1, j |-> 2], [op |-> "eq", i |-> 2, j |-> 1],
     [op |-> "dist", i |-> 1, j |-> 2], [op |-> "sld", i |-> 1, j |-> 2], [op |-> "hash", i |-> 1, j |-> 2]>>
     \o (IF p.kind = "g" /\ q.kind = "g" THEN <<[op |-> "dwa", i |-> 1, j |-> 2], [op |-> "torad", i |-> 1], [op |-> "eq", i |-> 3, j |-> 2], [op |-> "eq", i |-> 3, j |-> 1], [op |-> "latlon", i |-> 3]>> ELSE <<>>)
     \o <<[op |-> "set", i |-> 1, n |-> 2], [op |-> "read", i |-> 1], [op |-> "read", i |-> 2], [op |-> "copy", i |-> 1], [op |-> "read", i |-> IF p.kind = "g" /\ q.kind = "g" THEN 4 ELSE 3]>>]))
=============================================================================

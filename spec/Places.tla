------------------------------- MODULE Places -------------------------------
(* Locations: values made in a stage with distance units cfg.du and altitude    *)
(* units cfg.au ("" when not set) on an earth model cfg.model ("s" sphere, "w"  *)
(* WGS84 ellipsoid, "" none).  A history makes locations from numbers, copies,  *)
(* conversions and stored data, tries to change them, and asks questions.       *)
(* Kinds: "c" Cartesian (a, b, c integers, e millionths added to a, f: c is in  *)
(* altitude units), "g" geodetic (a, b degrees, c altitude in altitude units,   *)
(* k earth radii added to the altitude, f: stored in radians).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
Len10 == [m |-> 10000, km |-> 10000000, mi |-> 16093440, nmi |-> 18520000, ft |-> 3048]
RadiusDm == 63781370
AbsI(a) == IF a < 0 THEN -a ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
Near(obs, x) == AbsI(obs - x) <= 1 + AbsI(x) \div 100000
PlacesInit(cfg) == [err |-> "", kf |-> "", cfg |-> cfg, locs |-> <<>>, data |-> cfg.data]

HasUnits(s) == s.cfg.du # "" /\ s.cfg.au # ""
(* pairs of units whose conversion is exact in the table *)
ExactUnits(s) == HasUnits(s) /\ ({s.cfg.du, s.cfg.au} \subseteq {"m", "km"} \/ {s.cfg.du, s.cfg.au} \subseteq {"mi", "ft"} \/ s.cfg.du = s.cfg.au)
Same(p, q) == [p EXCEPT !.f = FALSE] = [q EXCEPT !.f = FALSE]

(* ------------------------------------------------------------- Cartesian *)
(* height in distance units; needs an integer result *)
HOk(s, p) == ~p.f \/ (HasUnits(s) /\ (p.c * Len10[s.cfg.au]) % Len10[s.cfg.du] = 0)
H(s, p) == IF p.f THEN (p.c * Len10[s.cfg.au]) \div Len10[s.cfg.du] ELSE p.c
Sq(x) == x * x
Dist2(s, p, q) == Sq(p.a - q.a) + Sq(p.b - q.b) + Sq(H(s, p) - H(s, q))

(* -------------------------------------------------------------- geodetic *)
DLon(p, q) == LET d == AbsI(p.b - q.b) % 360 IN MinI(d, 360 - d)
Pole(p) == AbsI(p.a) = 90
(* the central angle in degrees where it is a whole number by symmetry, else -1 *)
Angle(p, q) ==
  IF p.a = 90 THEN 90 - q.a ELSE IF p.a = -90 THEN 90 + q.a
  ELSE IF q.a = 90 THEN 90 - p.a ELSE IF q.a = -90 THEN 90 + p.a
  ELSE IF DLon(p, q) = 0 THEN AbsI(p.a - q.a)
  ELSE IF DLon(p, q) = 180 THEN 180 - AbsI(p.a + q.a)
  ELSE IF p.a = 0 /\ q.a = 0 THEN DLon(p, q)
  ELSE IF DLon(p, q) = 90 /\ (p.a = 0 \/ q.a = 0) THEN 90
  ELSE -1
(* on the ellipsoid only the equator is a circle of the same radius; the formula's iteration has no answer near antipodes *)
Known(s, p, q) ==
  \/ s.cfg.model = "s" /\ Angle(p, q) >= 0
  \/ s.cfg.model = "w" /\ p.a = q.a /\ DLon(p, q) = 0
  \/ s.cfg.model = "w" /\ p.a = 0 /\ q.a = 0 /\ DLon(p, q) <= 170
Unsafe(s, p, q) == s.cfg.model = "w" /\ (Angle(p, q) > 170 \/ (Angle(p, q) = -1 /\ DLon(p, q) > 120))
Cos2 == [x \in {0, 60, 90, 120, 180} |-> CASE x = 0 -> 2 [] x = 60 -> 1 [] x = 90 -> 0 [] x = 120 -> -1 [] OTHER -> -2]
(* squared straight line in squared radii, altitudes whole radii *)
Chord2(p, q) == LET r == 1 + p.k  t == 1 + q.k IN r * r + t * t - r * t * Cos2[Angle(p, q)]
ChordOk(s, p, q) == /\ p.c = 0 /\ q.c = 0 /\ Angle(p, q) \in DOMAIN Cos2
                    /\ s.cfg.model = "s" \/ (s.cfg.model = "w" /\ p.a = 0 /\ q.a = 0)

(* ------------------------------------------------------------ operations *)
Loc(s, i) == s.locs[i]
Add(s, l) == [s EXCEPT !.locs = Append(@, l)]
Make(s, e, l, what) == IF Err(e) THEN Fail(s, what \o " failed: " \o e.exc) ELSE Add(s, l)
Shown(l) == <<l.kind, l.a, l.b, l.c, l.e, l.k, l.f>>
Read(s, e) ==
  IF Err(e) THEN Fail(s, "reading a location failed: " \o e.exc)
  ELSE IF e.got # Shown(Loc(s, e.i)) THEN Fail(s, "a location does not have its values")
  ELSE s
Index(s, e) ==
  LET l == Loc(s, e.i) IN
  IF e.n < 0 \/ e.n > 2 THEN IF Err(e) THEN s ELSE Fail(s, "an index outside 0 to 2 was answered")
  ELSE IF Err(e) THEN Fail(s, "an index failed: " \o e.exc)
  ELSE IF e.v # CASE e.n = 0 -> l.a [] e.n = 1 -> l.b [] OTHER -> l.c THEN Fail(s, "an index gives a wrong value") ELSE s
Set(s, e) == IF Err(e) THEN s ELSE Fail(s, "a location let itself be changed")
(* d, rd: distance there and back.  Cartesian: hundredths of the squared distance; geodetic: thousandths of a degree *)
Dist(s, e) ==
  LET p == Loc(s, e.i)  q == Loc(s, e.j) IN
  IF p.kind # q.kind THEN IF Err(e) THEN s ELSE Fail(s, "a distance between different kinds of locations was answered")
  ELSE IF p.kind = "c" THEN
     IF (p.f \/ q.f) /\ ~HasUnits(s) THEN IF Err(e) THEN s ELSE Fail(s, "a distance that needs units was answered without them")
     ELSE IF Err(e) THEN Fail(s, "a distance failed: " \o e.exc)
     ELSE IF e.d # e.rd THEN Fail(s, "a distance is not the same in both directions")
     ELSE IF p.e # 0 \/ q.e # 0 \/ ~HOk(s, p) \/ ~HOk(s, q) THEN s
     ELSE IF ~Near(e.d, 100 * Dist2(s, p, q)) THEN Fail(s, "a distance is wrong") ELSE s
  ELSE IF s.cfg.model = "" \/ s.cfg.du = "" THEN IF Err(e) THEN s ELSE Fail(s, "a geodetic distance was answered without a model or unit")
  ELSE IF Unsafe(s, p, q) THEN s
  ELSE IF Err(e) THEN Fail(s, "a distance failed: " \o e.exc)
  ELSE IF e.d # e.rd THEN Fail(s, "a distance is not the same in both directions")
  ELSE IF e.d < 0 \/ e.d > 180010 THEN Fail(s, "a distance is out of range")
  ELSE IF Known(s, p, q) /\ ~Near(e.d, 1000 * Angle(p, q)) THEN Fail(s, "a distance is wrong") ELSE s
(* the altitude part of the distance with altitude, decimetres *)
Dwa(s, e) ==
  LET p == Loc(s, e.i)  q == Loc(s, e.j) IN
  IF s.cfg.model = "" \/ ~HasUnits(s) THEN IF Err(e) THEN s ELSE Fail(s, "a distance with altitude was answered without a model or units")
  ELSE IF Unsafe(s, p, q) THEN s
  ELSE IF Err(e) THEN Fail(s, "a distance with altitude failed: " \o e.exc)
  ELSE IF AbsI(e.h - AbsI((p.k - q.k) * RadiusDm + ((p.c - q.c) * Len10[s.cfg.au]) \div 1000)) > 2 + AbsI(e.h) \div 50000 THEN Fail(s, "a distance with altitude has a wrong altitude part")
  ELSE s
(* hundredths of squared radii (geodetic), hundredths of the squared distance (Cartesian) *)
Sld(s, e) ==
  LET p == Loc(s, e.i)  q == Loc(s, e.j) IN
  IF p.kind = "c" \/ p.kind # q.kind THEN Dist(s, e)
  ELSE IF s.cfg.model = "" \/ ~HasUnits(s) THEN IF Err(e) THEN s ELSE Fail(s, "a straight line was answered without a model or units")
  ELSE IF Err(e) THEN Fail(s, "a straight line failed: " \o e.exc)
  ELSE IF AbsI(e.d - e.rd) > 1 THEN Fail(s, "a straight line is not the same in both directions")
  ELSE IF ChordOk(s, p, q) /\ ~Near(e.d, 100 * Chord2(p, q)) THEN Fail(s, "a straight line is wrong") ELSE s
Eq(s, e) ==
  LET p == Loc(s, e.i)  q == Loc(s, e.j) IN
  IF p.kind # q.kind THEN IF Err(e) THEN s ELSE Fail(s, "a comparison of different kinds of locations was answered")
  ELSE IF p.kind = "c" THEN
     IF (p.f \/ q.f) /\ ~HasUnits(s) THEN s
     ELSE IF Err(e) THEN Fail(s, "a comparison failed: " \o e.exc)
     ELSE IF e.ne = e.eq THEN Fail(s, "equal and unequal at once")
     ELSE IF p.a = q.a /\ p.b = q.b /\ ((p.f = q.f /\ p.c = q.c) \/ (p.f # q.f /\ ExactUnits(s) /\ HOk(s, p) /\ HOk(s, q) /\ H(s, p) = H(s, q))) THEN
        IF AbsI(p.e - q.e) <= 5 THEN IF e.eq THEN s ELSE Fail(s, "equal locations compare unequal")
        ELSE IF e.eq THEN Fail(s, "different locations compare equal") ELSE s
     ELSE IF HOk(s, p) /\ HOk(s, q) /\ Dist2(s, p, q) > 0 /\ e.eq THEN Fail(s, "different locations compare equal")
     ELSE s
  ELSE IF Err(e) THEN Fail(s, "a comparison failed: " \o e.exc)
  ELSE IF e.ne = e.eq THEN Fail(s, "equal and unequal at once")
  ELSE IF e.eq # Same(p, q) THEN Fail(s, IF e.eq THEN "different locations compare equal" ELSE "equal locations compare unequal") ELSE s
Hash(s, e) ==
  IF Err(e) THEN Fail(s, "a location cannot be a key: " \o e.exc)
  ELSE IF Loc(s, e.i) = Loc(s, e.j) /\ ~e.found THEN Fail(s, "a location is not found under its equal") ELSE s
LatLon(s, e) ==
  IF Err(e) THEN Fail(s, "latlon failed: " \o e.exc)
  ELSE LET l == IF e.i > 0 THEN Loc(s, e.i) ELSE s.data[-e.i] IN IF e.got # <<l.a, l.b>> THEN Fail(s, "latlon does not give degrees") ELSE s
DataEq(s, e) ==
  LET p == s.data[e.i]  q == s.data[e.j] IN
  IF p.kind # q.kind THEN IF Err(e) THEN s ELSE Fail(s, "a comparison of different kinds of data was answered")
  ELSE IF Err(e) THEN Fail(s, "a comparison of data failed: " \o e.exc)
  ELSE IF p.kind = "c" /\ (p.f # q.f \/ p.e # q.e) THEN s
  ELSE IF e.eq # Same(p, q) THEN Fail(s, "data compare wrongly") ELSE s
(* dist: the total; sum: of the legs one by one, both in hundredths; time and speed: time * speed *)
Way(s, e) ==
  IF Err(e) THEN Fail(s, "the length of waypoints failed: " \o e.exc)
  ELSE IF ~Near(e.dist, e.sum) \/ ~Near(e.ts, e.sum) THEN Fail(s, "the time or length of waypoints is wrong") ELSE s
Other(s, e) == IF Err(e) THEN s ELSE Fail(s, "an operation with something that is no location was answered: " \o e.what)

PlacesStep(s, e) ==
  CASE e.op = "new" -> Make(s, e, e.l, "making a location")
    [] e.op = "copy" -> Make(s, e, Loc(s, e.i), "a copy")
    [] e.op = "torad" -> Make(s, e, [Loc(s, e.i) EXCEPT !.f = TRUE], "a conversion to radians")
    [] e.op = "todeg" -> Make(s, e, [Loc(s, e.i) EXCEPT !.f = FALSE], "a conversion to degrees")
    [] e.op = "make" -> Make(s, e, s.data[e.i], "making a location from data")
    [] e.op = "read" -> Read(s, e)
    [] e.op = "index" -> Index(s, e)
    [] e.op = "set" -> Set(s, e)
    [] e.op = "dist" -> Dist(s, e)
    [] e.op = "dwa" -> Dwa(s, e)
    [] e.op = "sld" -> Sld(s, e)
    [] e.op = "eq" -> Eq(s, e)
    [] e.op = "hash" -> Hash(s, e)
    [] e.op = "latlon" -> LatLon(s, e)
    [] e.op = "dataeq" -> DataEq(s, e)
    [] e.op = "way" -> Way(s, e)
    [] e.op = "other" -> Other(s, e)
    [] OTHER -> Fail(s, "unknown operation " \o e.op)
=============================================================================

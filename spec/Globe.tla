------------------------------- MODULE Globe -------------------------------
(* Finding one's way on a globe: points, distances, courses, evenly spaced     *)
(* paths, circles, cross-track points and crossings, in whole degrees.         *)
(*                                                                             *)
(* A point is <<lat, lon>> on a globe whose equator may be any great circle of *)
(* the real one, with lon in -179..180 and lon = 0 at the poles.  Answers are  *)
(* whole numbers of degrees for two points on one meridian (or on opposite     *)
(* ones), on the equator, with a pole, or a quarter turn apart in longitude    *)
(* with one on the equator; only those are asked for.                          *)
(* On an ellipsoid the only points are <<0, k>>, k steps along one geodesic.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
GlobeInit(cfg) == [p |-> cfg.pts, wgs |-> cfg.wgs, err |-> "", kf |-> ""]

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Min(a, b) == IF a < b THEN a ELSE b
Wrap(x) == ((x + 179) % 360) - 179            \* into -179..180
Norm(lat, lon) ==                                          \* lat in -270..270
  LET f == lat > 90 \/ lat < -90
      a == IF lat > 90 THEN 180 - lat ELSE IF lat < -90 THEN -180 - lat ELSE lat
  IN <<a, IF Abs(a) = 90 THEN 0 ELSE Wrap(IF f THEN lon + 180 ELSE lon)>>
Pole(p) == Abs(p[1]) = 90
DLon(p, q) == Wrap(q[2] - p[2])
Equ(p, q) == p[1] = 0 /\ q[1] = 0
Mer(p, q) == Pole(p) \/ Pole(q) \/ DLon(p, q) = 0
Opp(p, q) == ~Pole(p) /\ ~Pole(q) /\ DLon(p, q) = 180
Quarter(p, q) == ~Pole(p) /\ ~Pole(q) /\ Abs(DLon(p, q)) = 90 /\ (p[1] = 0 \/ q[1] = 0)
Line(p, q) == Equ(p, q) \/ Mer(p, q) \/ Opp(p, q)
Antip(p, q) == q = Norm(-p[1], p[2] + 180)

Dist(p, q) ==
  IF Equ(p, q) THEN Abs(DLon(p, q))
  ELSE IF Mer(p, q) THEN Abs(p[1] - q[1])
  ELSE IF Opp(p, q) THEN Min(180 - p[1] - q[1], 180 + p[1] + q[1])
  ELSE 90
(* the course at p towards q; p is no pole, and q neither p nor its antipode *)
Course(p, q) ==
  IF Equ(p, q) THEN (IF DLon(p, q) > 0 THEN 90 ELSE 270)
  ELSE IF Mer(p, q) THEN (IF q[1] > p[1] THEN 0 ELSE 180)
  ELSE IF Opp(p, q) THEN (IF p[1] + q[1] > 0 THEN 0 ELSE 180)
  ELSE IF p[1] = 0 THEN (IF DLon(p, q) > 0 THEN 90 - q[1] ELSE 270 + q[1]) % 360
  ELSE IF DLon(p, q) > 0 THEN 90 ELSE 270
(* from p on course b for d; from a pole the course is a longitude *)
Go(p, b, d) ==
  IF Pole(p) THEN Norm(p[1] - Sgn(p[1]) * d, b)
  ELSE IF b = 0 THEN Norm(p[1] + d, p[2])
  ELSE IF b = 180 THEN Norm(p[1] - d, p[2])
  ELSE IF p[1] = 0 /\ b = 90 THEN Norm(0, p[2] + d)
  ELSE IF p[1] = 0 /\ b = 270 THEN Norm(0, p[2] - d)
  ELSE IF p[1] = 0 THEN (IF b < 180 THEN Norm(90 - b, p[2] + 90) ELSE Norm(b - 270, p[2] - 90))
  ELSE Norm(0, p[2] + (IF b = 90 THEN 90 ELSE -90))
CanGo(p, b, d) == Pole(p) \/ b \in {0, 180} \/ (p[1] = 0 /\ b \in {90, 270}) \/ (d = 90 /\ (p[1] = 0 \/ b \in {90, 270}))
Toward(p, q) == IF Pole(p) THEN q[2] ELSE Course(p, q)
(* x degrees from p on the great circle towards q (x may be negative) *)
Turn(p, b) == IF Pole(p) THEN Wrap(b + 180) ELSE (b + 180) % 360
At(p, q, x) == IF x >= 0 THEN Go(p, Toward(p, q), x) ELSE Go(p, Turn(p, Toward(p, q)), -x)
Path(p, q) == p # q /\ ~Antip(p, q) /\ Line(p, q)

(* the great circle through a and b is the equator or a meridian *)
OnEqu(a, b) == Equ(a, b)
Meridian(a, b) == IF Pole(a) THEN b[2] ELSE a[2]
Beside(a, b, p) == Abs(Wrap(p[2] - Meridian(a, b))) = 90 /\ ~Pole(p)
CanCross(a, b, p) == Path(a, b) /\ (OnEqu(a, b) \/ Pole(p) \/ Beside(a, b, p) \/ Wrap(p[2] - Meridian(a, b)) \in {0, 180})
Off(a, b, p) == IF OnEqu(a, b) THEN Abs(p[1]) ELSE IF Beside(a, b, p) THEN 90 - Abs(p[1]) ELSE 0
(* the point of that circle nearest to p, when there is one *)
HasFoot(a, b, p) == CanCross(a, b, p) /\ Off(a, b, p) # 90
Foot(a, b, p) == IF OnEqu(a, b) THEN <<0, p[2]>> ELSE IF Beside(a, b, p) THEN <<90 * Sgn(p[1]), 0>> ELSE p
(* how far along from a it is, in -179..180 *)
Along(a, b, p) ==
  LET f == Foot(a, b, p) IN
  IF f = a THEN 0 ELSE IF Antip(a, f) THEN 180 ELSE IF At(a, b, Dist(a, f)) = f THEN Dist(a, f) ELSE -Dist(a, f)

(* a circle around p cuts the great circle w degrees before and after its foot *)
Cuts(a, b, p, w) ==
  LET c == Along(a, b, p)  d == Dist(a, b) IN
  IF d < c - w \/ c + w < 0 THEN <<>>
  ELSE << <<At(a, b, c - w), c - w>>, <<At(a, b, c + w), c + w>> >>
Within(x, d) == x > 0 /\ x < d
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<m>> \o Sorted(S \ {m})
Crossings(a, b, p, w) ==
  LET c == Along(a, b, p)  d == Dist(a, b)
      X == {<<x, "ENTER">> : x \in {x \in {c - w, c - w + 360} : Within(x, d)}} \cup {<<x, "EXIT">> : x \in {x \in {c + w, c + w - 360} : Within(x, d)}}
      in(x) == Abs(Wrap(x - c)) < w
      m == Sorted(X)
  IN (IF in(0) THEN << <<"START_INSIDE", a>> >> ELSE <<>>)
     \o [i \in DOMAIN m |-> <<m[i][2], At(a, b, m[i][1])>>]
     \o (IF in(d) THEN << <<"END_INSIDE", b>> >> ELSE <<>>)

Refused(s, e) ==
  CASE e.op = "lin" -> e.n < 2
    [] OTHER -> FALSE
(* there is no great circle between a point and itself *)
MayRefuse(s, e) == e.op = "lin" /\ ~s.wgs /\ s.p[e.i] = s.p[e.j]
Even(s, e) ==
  IF s.p[e.i] = s.p[e.j] THEN [k \in 1..(e.n + 1) |-> s.p[e.i]]
  ELSE [k \in 1..(e.n + 1) |-> At(s.p[e.i], s.p[e.j], (k - 1) * (Dist(s.p[e.i], s.p[e.j]) \div e.n))]
GlobeStep(s, e) ==
  LET a == s.p[e.i]  b == s.p[e.j]  p == s.p[e.k] IN
  IF e.exc # "" THEN (IF Refused(s, e) \/ MayRefuse(s, e) THEN s ELSE Fail(s, "failed: " \o e.op))
  ELSE IF Refused(s, e) THEN Fail(s, "should have been refused: " \o e.op)
  ELSE IF e.op = "go" THEN
    (IF e.r # Go(a, e.b, e.d) THEN Fail(s, "a point is not where its course and distance lead") ELSE [s EXCEPT !.p = Append(@, e.r)])
  ELSE IF e.op = "along" THEN
    (IF e.r # At(a, b, e.d) THEN Fail(s, "a point along a path is in the wrong place") ELSE [s EXCEPT !.p = Append(@, e.r)])
  ELSE IF e.op = "dist" THEN (IF e.r # Dist(a, b) THEN Fail(s, "a distance is wrong") ELSE s)
  ELSE IF e.op = "course" THEN (IF e.r # Course(a, b) THEN Fail(s, "a course is wrong") ELSE s)
  ELSE IF e.op = "lin" THEN
    (IF e.r # Even(s, e) THEN Fail(s, "the points of a path are not evenly spaced")
     ELSE IF e.alts # [k \in 1..(e.n + 1) |-> e.h0 + (k - 1) * ((e.h1 - e.h0) \div e.n)] THEN Fail(s, "the heights of a path are not evenly spaced") ELSE s)
  ELSE IF e.op = "circle" THEN
    (IF e.r # [k \in 1..(e.n + 1) |-> ((k - 1) * (360 \div e.n)) % 360] THEN Fail(s, "the points of a circle are wrong") ELSE s)
  ELSE IF e.op = "off" THEN (IF e.r # Off(a, b, p) THEN Fail(s, "the distance from a path is wrong") ELSE s)
  ELSE IF e.op = "foot" THEN (IF e.r # Foot(a, b, p) THEN Fail(s, "the point of a path nearest to another is wrong") ELSE [s EXCEPT !.p = Append(@, e.r)])
  ELSE IF e.op = "cuts" THEN (IF e.r # Cuts(a, b, p, e.w) THEN Fail(s, "a circle cuts a path in the wrong places") ELSE s)
  ELSE IF e.op = "cross" THEN (IF e.r # Crossings(a, b, p, e.w) THEN Fail(s, "a path enters or leaves a sphere in the wrong places") ELSE s)
  ELSE IF e.op = "ecef" THEN (IF e.r # <<a, e.h0>> THEN Fail(s, "a point is another one after conversion and back") ELSE s)
  ELSE Fail(s, "unknown " \o e.op)
=============================================================================

------------------------------ MODULE GlobeMC ------------------------------
(* Journeys on a coarse lattice, with the questions that can be asked on the   *)
(* way; the laws of the sphere hold between all points that are reached.       *)
EXTENDS Globe, Json
CONSTANTS Depth, Gen, Starts, Unit
VARIABLES s, hist
Lattice == {Norm(Unit * i, Unit * j) : i \in (-(90 \div Unit))..(90 \div Unit), j \in (-(180 \div Unit) + 1)..(180 \div Unit)}
AllStarts == Lattice
SomeStarts == {<<0, 0>>, <<30, 0>>, <<-60, 180>>, <<90, 0>>, <<0, 120>>}
Bs == {0, 90, 180, 270} \cup {Unit, 360 - Unit}
Ds == {Unit, 90, 180 - Unit}
Nth(i) == s.p[i]
Ops ==
  LET I == DOMAIN s.p IN
       {[op |-> "go", i |-> i, j |-> 1, k |-> 1, b |-> b, d |-> d] : i \in I, b \in Bs, d \in Ds}
  \cup {[op |-> "dist", i |-> i, j |-> j, k |-> 1] : i \in I, j \in I}
  \cup {[op |-> "course", i |-> i, j |-> j, k |-> 1] : i \in I, j \in I}
  \cup {[op |-> "along", i |-> i, j |-> j, k |-> 1, d |-> Unit] : i \in I, j \in I}
  \cup {[op |-> "off", i |-> i, j |-> j, k |-> k] : i \in I, j \in I, k \in I}
  \cup {[op |-> "foot", i |-> i, j |-> j, k |-> k] : i \in I, j \in I, k \in I}
Allowed(o) ==
  LET a == Nth(o.i)  b == Nth(o.j)  p == Nth(o.k) IN
  CASE o.op = "go" -> CanGo(a, o.b, o.d)
    [] o.op = "dist" -> Line(a, b) \/ Quarter(a, b)
    [] o.op = "course" -> ~Pole(a) /\ a # b /\ ~Antip(a, b) /\ (Line(a, b) \/ Quarter(a, b))
    [] o.op = "along" -> Path(a, b) /\ o.d <= Dist(a, b)
    [] o.op = "off" -> CanCross(a, b, p)
    [] o.op = "foot" -> HasFoot(a, b, p)
    [] OTHER -> FALSE
Result(o) ==
  CASE o.op = "go" -> Append(s.p, Go(Nth(o.i), o.b, o.d))
    [] o.op = "along" -> Append(s.p, At(Nth(o.i), Nth(o.j), o.d))
    [] o.op = "foot" -> Append(s.p, Foot(Nth(o.i), Nth(o.j), Nth(o.k)))
    [] OTHER -> s.p
MCInit == s \in {GlobeInit([pts |-> <<a, b>>, wgs |-> FALSE]) : a \in Starts, b \in (IF Gen THEN Starts ELSE Lattice)} /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Allowed(o) /\ s' = [s EXCEPT !.p = Result(o)] /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>

Laws(a, b) ==
  /\ a \in Lattice
  /\ (Line(a, b) \/ Quarter(a, b)) => Dist(a, b) = Dist(b, a) /\ Dist(a, b) \in 0..180 /\ (Dist(a, b) = 0 <=> a = b) /\ (Dist(a, b) = 180 <=> Antip(a, b))
  \* course and distance lead where they were taken
  /\ (~Pole(a) /\ a # b /\ ~Antip(a, b) /\ (Line(a, b) \/ Quarter(a, b))) => CanGo(a, Course(a, b), Dist(a, b)) /\ Go(a, Course(a, b), Dist(a, b)) = b
  \* a point on the way is that far from both ends, and once around leads back
  /\ Path(a, b) => /\ \A x \in {Unit * i : i \in 0..(Dist(a, b) \div Unit)} : LET m == At(a, b, x) IN Line(a, m) /\ Dist(a, m) = x /\ Line(m, b) /\ Dist(m, b) = Dist(a, b) - x
                   /\ At(a, At(a, b, -Unit), Unit) = At(a, b, -Unit)
                   /\ Go(At(a, b, 180), Toward(At(a, b, 180), At(a, b, 180 + Unit - 2 * Unit)), 180) = a
  \* nothing on a path is nearer than the foot
  /\ Path(a, b) => \A p \in Lattice : CanCross(a, b, p) =>
       /\ HasFoot(a, b, p) => (Line(Foot(a, b, p), p) \/ Quarter(Foot(a, b, p), p)) /\ Dist(Foot(a, b, p), p) = Off(a, b, p) /\ At(a, b, Along(a, b, p)) = Foot(a, b, p)
       /\ \A x \in {Unit * i : i \in 0..(360 \div Unit)} : LET m == At(a, b, IF x > 180 THEN x - 360 ELSE x) IN (Line(m, p) \/ Quarter(m, p)) => Dist(m, p) >= Off(a, b, p)
  \* crossings alternate, and come in order
  /\ Path(a, b) => \A p \in Lattice : HasFoot(a, b, p) => LET c == Crossings(a, b, p, Unit \div 2) IN
       /\ \A i \in 1..(Len(c) - 1) : (c[i][1] \in {"START_INSIDE", "ENTER"}) # (c[i + 1][1] \in {"START_INSIDE", "ENTER"})
       /\ \A i \in DOMAIN c : c[i][1] \in {"ENTER", "EXIT"} => Dist(c[i][2], Foot(a, b, p)) = Unit \div 2
Inv == \A i \in DOMAIN s.p : \A j \in DOMAIN s.p : Laws(s.p[i], s.p[j])
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([pts |-> <<s.p[1], s.p[2]>>, ops |-> hist]))
=============================================================================

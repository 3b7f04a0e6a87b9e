------------------------------- MODULE Tables -------------------------------
(* Data tables as a function of what has been recorded.                       *)
(* A recorded entry is [t, k, v, kv]: k = "s" a value (code v), "d" a value   *)
(* with named parts kv = <<[n, v]>>, "m" an activation mark v (a string code  *)
(* in field n).  A history belongs to one state of one actor (or to one of    *)
(* its recording functions or keys), or to one monitored resource.            *)
(* State definition: [n, k, rec, fns], k in plain, active, loc, keyed, held   *)
(* (a monitored resource), other (an unmonitored one).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""

RECURSIVE Rows(_, _, _, _, _)
(* the rows of a history h of (who, what); status of the rows to come *)
Rows(w, n, h, act, acc) ==
  IF h = <<>> THEN acc
  ELSE LET e == h[1]
           base == [a |-> w[1], k |-> w[2]]
           row(sn, v) == [a |-> w[1], k |-> w[2], n |-> sn, t |-> e.t, v |-> v, st |-> act]
       IN CASE e.k = "m" -> Rows(w, n, Tail(h), IF e.n = "activating" THEN "active" ELSE "inactive",
                                 IF acc = <<>> THEN acc ELSE [acc EXCEPT ![Len(acc)].st = e.n])
            [] e.k = "d" -> Rows(w, n, Tail(h), act, acc \o [i \in 1..Len(e.kv) |-> row(n \o "." \o e.kv[i].n, e.kv[i].v)])
            [] OTHER -> Rows(w, n, Tail(h), act, Append(acc, row(n, e.v)))
First(k) == IF k \in {"active", "loc"} THEN "inactive" ELSE ""

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

(* hists: <<[n, of, h]>>; of: the state it is a key of, "" otherwise *)
Named(hs, n) == LET m == SelectSeq(hs, LAMBDA x : x.n = n /\ x.of = "") IN IF m = <<>> THEN <<>> ELSE m[1].h
KeysOf(hs, n) == SelectSeq(hs, LAMBDA x : x.of = n)
OfState(a, hs, d, res, vals, has, skip, static) ==
  LET w == <<a.name, a.kind>>
      fn == Flat([i \in DOMAIN d.fns |-> Rows(w, d.fns[i], Named(hs, d.fns[i]), "", <<>>)])
      keys == KeysOf(hs, d.n)
      own == IF skip /\ d.k = "loc" THEN <<>>
             ELSE IF d.n \notin has THEN <<>>
             ELSE IF d.k = "held" THEN Flat([i \in DOMAIN res |-> IF \E j \in DOMAIN res[i].by : res[i].by[j].id = a.id /\ res[i].by[j].n = d.n THEN Rows(w, d.n, res[i].h, "", <<>>) ELSE <<>>])
             ELSE IF d.k = "keyed" /\ d.rec THEN Flat([i \in DOMAIN keys |-> Rows(w, keys[i].n, keys[i].h, "", <<>>)])
             ELSE IF d.rec THEN Rows(w, d.n, Named(hs, d.n), First(d.k), <<>>)
             ELSE IF static THEN [i \in DOMAIN vals |-> [a |-> w[1], k |-> w[2], n |-> vals[i].n, t |-> 0, v |-> vals[i].v, st |-> "Last Seen"]]
             ELSE <<>>
  IN fn \o own
OfActor(a, o, res, skip, static) ==
  Flat([i \in DOMAIN a.states |-> OfState(a, o.hists, a.states[i], res, o.vals[i], {o.has[j] : j \in DOMAIN o.has}, skip, static)])
OfFree(r) == IF r.by # <<>> THEN <<>> ELSE Rows(<<r.name, r.kind>>, "Resource", r.h, "", <<>>)
Table(s, e) == Flat([i \in DOMAIN s.actors |-> OfActor(s.actors[i], e.see[i], e.res, e.skip, e.static)]) \o Flat([i \in DOMAIN e.res |-> OfFree(e.res[i])])

(* whether keys put in unrecorded are seen when none has been recorded is open *)
Unsure(s, e) ==
  UNION {UNION {LET a == s.actors[i] d == a.states[j] v == e.see[i].vals[j]
                IN IF e.static /\ d.k = "keyed" /\ d.rec /\ KeysOf(e.see[i].hists, d.n) = <<>>
                   THEN {[a |-> a.name, k |-> a.kind, n |-> v[x].n, t |-> 0, v |-> v[x].v, st |-> "Last Seen"] : x \in DOMAIN v} ELSE {}
                : j \in DOMAIN s.actors[i].states} : i \in DOMAIN s.actors}

(* compare as bags, one (entity, state) at a time *)
Key(r) == <<r.a, r.k, r.n>>
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
Part(q, k) == SelectSeq(q, LAMBDA r : Key(r) = k)
Keys(q) == {Key(q[i]) : i \in DOMAIN q}
Differs(p, q) == {k \in Keys(p) \cup Keys(q) : ~SameBag(Part(p, k), Part(q, k))}

TablesInit(cfg) == [err |-> "", kf |-> "", actors |-> cfg.actors, data |-> <<>>, geo |-> cfg.geo]
Cols == <<"Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status">>
DoTable(s, e) ==
  IF Err(e) THEN Fail(s, "making a table failed: " \o e.exc)
  ELSE LET open == Unsure(s, e)
           sure(q) == IF open = {} THEN q ELSE SelectSeq(q, LAMBDA r : r \notin open)
           want == sure(Table(s, e))
           got == sure(e.rows)
           bad == Differs(want, got)
       IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE
                               p == Part(want, k) q == Part(got, k)
                           IN Fail(s, (IF Len(q) < Len(p) THEN "rows are missing" ELSE IF Len(q) > Len(p) THEN "there are too many rows" ELSE "rows have a wrong time, value or status") \o " in the table for " \o k[1] \o ": " \o k[3])
          ELSE IF e.cols # Cols THEN Fail(s, "the table has wrong columns")
          ELSE IF ~e.same THEN Fail(s, "making the table again gives another table")
          ELSE IF ~e.kept THEN Fail(s, "making a table changes the simulation") ELSE s

LocRows(a, o) == Flat([i \in DOMAIN a.states |-> IF a.states[i].k = "loc" /\ a.states[i].rec THEN Rows(<<a.name, a.kind>>, a.states[i].n, Named(o.hists, a.states[i].n), "inactive", <<>>) ELSE <<>>])
LocCols(geo) == <<"Entity Name", "Entity Type", "State Name", "Time">> \o (IF geo THEN <<"Lat", "Lon", "Alt">> ELSE <<"X", "Y", "Z">>) \o <<"Activation Status">>
DoLoc(s, e) ==
  IF Err(e) THEN Fail(s, "making a location table failed: " \o e.exc)
  ELSE LET want == Flat([i \in DOMAIN s.actors |-> LocRows(s.actors[i], e.see[i])])
           bad == Differs(want, e.rows)
       IN IF bad # {} THEN Fail(s, "the location table is wrong for " \o (CHOOSE k \in bad : TRUE)[1])
          ELSE IF e.cols # LocCols(s.geo) /\ ~(want = <<>> /\ e.cols = LocCols(~s.geo)) THEN Fail(s, "the location table has wrong columns")
          ELSE IF ~e.same THEN Fail(s, "making the table again gives another table")
          ELSE IF ~e.kept THEN Fail(s, "making a table changes the simulation") ELSE s

(* data recorded by hand: [t, v]; a copied value keeps what it was *)
Put(s, e) == IF Err(e) THEN Fail(s, "recording data failed") ELSE [s EXCEPT !.data = Append(@, [t |-> e.t, v |-> e.v])]
DoData(s, e) == IF Err(e) THEN Fail(s, "getting the recorded data failed: " \o e.exc) ELSE IF e.rows # s.data THEN Fail(s, "the recorded data is not what was recorded") ELSE s
(* something recorded without a copy was changed by its owner *)
Change(s, e) == [s EXCEPT !.data = [i \in DOMAIN @ |-> IF i \in {e.at[j] : j \in DOMAIN e.at} THEN [@[i] EXCEPT !.v = e.v] ELSE @[i]]]

TablesStep(s, e) ==
  CASE e.op = "do" -> s
    [] e.op = "make" -> [s EXCEPT !.actors = Append(@, e.actor)]
    [] e.op = "table" -> DoTable(s, e)
    [] e.op = "loc" -> DoLoc(s, e)
    [] e.op = "put" -> Put(s, e)
    [] e.op = "change" -> Change(s, e)
    [] e.op = "data" -> DoData(s, e)
    [] OTHER -> Fail(s, "unknown operation " \o e.op)
=============================================================================

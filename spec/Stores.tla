------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* Stores and containers: plain store, filter store, sorted filter store,  *)
(* container; each plain or self-monitoring.  Requests are served in the   *)
(* order the event queue dictates: making a request tries it at once, and  *)
(* processing a granted put (get) lets waiting gets (puts) be tried again. *)
(*                                                                         *)
(* cfg : [kind, cap, mon, qf, init]                                        *)
(* item: [id, k, c]      k sort key, c class used by filters               *)
(* request: [rid, cls (sequence of accepted classes), sort, rev, amt]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Range_(s) == {s[i] : i \in DOMAIN s}

StInit(cfg) ==
  [ kind |-> cfg.kind, cap |-> cfg.cap, mon |-> cfg.mon, qf |-> cfg.qf,
    now |-> 0, items |-> <<>>, level |-> cfg.init,
    putq |-> <<>>, getq |-> <<>>,
    evq |-> <<>>,            \* granted, not yet processed: <<"P"|"G", id>>
    got |-> {},              \* all granted gets: <<rid, item id or amount>>
    put |-> {},              \* all granted puts
    canc |-> {},             \* cancelled while waiting
    rec |-> <<>>,            \* recorded <<time, quantity>> (changes only)
    err |-> "", kf |-> "" ]

Quantity(s) ==
  CASE s.kind = "container" -> s.level
    [] s.qf = "len"   -> Len(s.items)
    [] s.qf = "sum"   -> FoldLeft(LAMBDA a, it : a + it.k, 0, s.items)
    [] s.qf = "first" -> IF s.items = <<>> THEN -1 ELSE s.items[1].k
    [] OTHER          -> 0

Start(cfg) == LET s == StInit(cfg) IN [s EXCEPT !.rec = << <<0, Quantity(s)>> >>]

Record(s) ==
  LET q == Quantity(s) IN
  IF q = s.rec[Len(s.rec)][2] THEN s ELSE [s EXCEPT !.rec = Append(@, <<s.now, q>>)]

Matches(r, it) == \E i \in DOMAIN r.cls : r.cls[i] = it.c

(* position of the item request r receives, 0 if none *)
Choice(s, r) ==
  LET cand == {i \in DOMAIN s.items : Matches(r, s.items[i])} IN
  IF cand = {} THEN 0
  ELSE IF r.sort = "none" THEN Min(cand)
  ELSE LET best(i) == \A j \in cand : IF r.rev THEN s.items[i].k >= s.items[j].k
                                               ELSE s.items[i].k <= s.items[j].k
       IN Min({i \in cand : best(i)})

Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* try the waiting put at position i *)
CanPut(s, i) == IF s.kind = "container" THEN s.level + s.putq[i].amt <= s.cap
                ELSE Len(s.items) < s.cap
DoPut(s, i) ==
  LET p == s.putq[i] IN
  Record([s EXCEPT !.putq = Without(@, i),
                   !.items = IF s.kind = "container" THEN @ ELSE Append(@, p.item),
                   !.level = IF s.kind = "container" THEN @ + p.amt ELSE @,
                   !.evq = Append(@, <<"P", p.pid>>),
                   !.put = @ \cup {p.pid}])

CanGet(s, i) == IF s.kind = "container" THEN s.level >= s.getq[i].amt
                ELSE IF s.kind = "store" THEN s.items # <<>>
                ELSE Choice(s, s.getq[i]) # 0
DoGet(s, i) ==
  LET r == s.getq[i]
      c == IF s.kind = "container" THEN 0 ELSE IF s.kind = "store" THEN 1 ELSE Choice(s, r)
  IN Record([s EXCEPT !.getq = Without(@, i),
                      !.items = IF s.kind = "container" THEN @ ELSE Without(@, c),
                      !.level = IF s.kind = "container" THEN @ - r.amt ELSE @,
                      !.evq = Append(@, <<"G", r.rid>>),
                      !.got = @ \cup {<<r.rid, IF s.kind = "container" THEN r.amt ELSE s.items[c].id>>}])

RECURSIVE TrigPut(_), TrigGet(_, _)
(* a store serves at most one waiting put per trigger, a container as many as fit, in order *)
TrigPut(s) ==
  IF s.putq = <<>> \/ ~CanPut(s, 1) THEN s
  ELSE IF s.kind = "container" THEN TrigPut(DoPut(s, 1)) ELSE DoPut(s, 1)

TrigGet(s, i) ==
  IF i > Len(s.getq) THEN s
  ELSE IF s.kind = "store" THEN (IF CanGet(s, 1) THEN DoGet(s, 1) ELSE s)
  ELSE IF s.kind = "container" THEN (IF CanGet(s, 1) THEN TrigGet(DoGet(s, 1), 1) ELSE s)
  ELSE IF CanGet(s, i) THEN TrigGet(DoGet(s, i), i) ELSE TrigGet(s, i + 1)

OneEvent(s) ==
  IF s.evq = <<>> THEN s
  ELSE LET h == Head(s.evq)
           t == [s EXCEPT !.evq = Tail(@)]
       IN IF h[1] = "P" THEN TrigGet(t, 1) ELSE TrigPut(t)

RECURSIVE Drain(_)
Drain(s) == IF s.evq = <<>> THEN s ELSE Drain(OneEvent(s))

Waiting(q, rid) == {i \in DOMAIN q : q[i].rid = rid}

Apply(s, o) ==
  CASE o.op = "put"     -> TrigPut([s EXCEPT !.putq = Append(@, [pid |-> o.pid, item |-> o.item, amt |-> o.amt])])
    [] o.op = "get"     -> TrigGet([s EXCEPT !.getq = Append(@, [rid |-> o.rid, cls |-> o.cls, sort |-> o.sort,
                                                                 rev |-> o.rev, amt |-> o.amt])], 1)
    [] o.op = "cancelg" -> IF Waiting(s.getq, o.rid) = {} THEN s
                           ELSE [s EXCEPT !.getq = Without(@, CHOOSE i \in Waiting(s.getq, o.rid) : TRUE),
                                          !.canc = @ \cup {o.rid}]
    [] o.op = "cancelp" -> LET w == {i \in DOMAIN s.putq : s.putq[i].pid = o.rid} IN
                           IF w = {} THEN s
                           ELSE [s EXCEPT !.putq = Without(@, CHOOSE i \in w : TRUE), !.canc = @ \cup {o.rid}]
    [] o.op = "step"    -> OneEvent(s)
    [] o.op = "settle"  -> Drain(s)
    [] o.op = "advance" -> [Drain(s) EXCEPT !.now = @ + o.dt]
    [] OTHER            -> [s EXCEPT !.err = "unknown operation"]

(* collapse repeated quantities: the recorded course as a function of time *)
Collapse(r) ==
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][2] = x[2] THEN a ELSE Append(a, x), <<>>, r)

StepStores(s, e) ==
  LET n == Apply(s, e)
      ids == [i \in DOMAIN n.items |-> n.items[i].id]
  IN CASE n.err # "" -> n
       [] n.kind = "container" /\ e.level # n.level -> [n EXCEPT !.err = "content: container level differs"]
       [] n.kind # "container" /\ e.items # ids -> [n EXCEPT !.err = "content: items held (or their order) differ"]
       [] Range_(e.got) # n.got -> [n EXCEPT !.err = "service: the items handed out to requests differ"]
       [] Range_(e.puts) # n.put -> [n EXCEPT !.err = "service: the accepted puts differ"]
       [] n.mon /\ Collapse(e.rec) # n.rec -> [n EXCEPT !.err = "record: recorded quantities differ from the true course"]
       [] n.mon /\ e.rec # <<>> /\ \E i \in 1..(Len(e.rec) - 1) : e.rec[i][1] > e.rec[i + 1][1]
            -> [n EXCEPT !.err = "record: not in time order"]
       [] OTHER -> n

(* ------------------------------------------------------------------ the properties on the model *)
Conservation(s, allitems) ==
  s.kind # "container" =>
    /\ {it.id : it \in Range_(s.items)} \cap {g[2] : g \in s.got} = {}
    /\ Cardinality({g[2] : g \in s.got}) = Cardinality(s.got)
    /\ Cardinality(s.put) = Len(s.items) + Cardinality(s.got)
LevelOk(s) == s.kind = "container" => s.level \in 0..s.cap
CapOk(s) == s.kind # "container" => Len(s.items) <= s.cap
NoBlocking(s) ==
  s.evq = <<>> =>
     IF s.kind \in {"filter", "sorted"} THEN \A i \in DOMAIN s.getq : ~CanGet(s, i)
     ELSE s.canc = {} /\ s.getq # <<>> => ~CanGet(s, 1)
RecordTrue(s) == s.rec[Len(s.rec)][2] = Quantity(s)
=============================================================================

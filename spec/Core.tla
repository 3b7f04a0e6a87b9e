-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* Actors, task networks, tasks, routines, events, interrupts, nucleus.    *)
(*                                                                         *)
(* The specification is a timed transition system with maximal progress:   *)
(* within an instant anything that is enabled may happen in any order, and *)
(* time may only advance when nothing is enabled any more (what a user may *)
(* rely on as "in the same instant").  It does not fix simpy's order of    *)
(* events within an instant.                                               *)
(*                                                                         *)
(* Every step is an event record e:                                        *)
(*  from the tasks   start dec yield resume rret end rstart rend rcancel   *)
(*                   rcend act deact mimic unmimic mark unmark             *)
(*  from the system  done (an event object completes), intr (on_interrupt  *)
(*                   was called and returned an action), pintr (an awaited *)
(*                   process was interrupted), crash                       *)
(*  from anyone      succ reset ksucc kset setw nucadd nucrm setq clearq   *)
(*                   intrn xput xget cancel loop                           *)
(*  observations     snap, and tick (time advances)                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Rng(q) == {q[i] : i \in DOMAIN q}
Has(q, x) == \E i \in DOMAIN q : q[i] = x
Fail(s, m) == [s EXCEPT !.err = m]

(* event object:  k kind, x location or duration, v item/amount/parity/held object, subs members *)
NewObj(o, now) ==
  [k |-> o.k, x |-> o.x, v |-> o.v, subs |-> o.subs, ar |-> o.ar, st |-> "wait", due |-> now + o.x,
   val |-> -1, trig |-> FALSE, canc |-> FALSE, pay |-> 0, got |-> {}, cin |-> now]

Lin == [v |-> 0, r |-> 0, since |-> 0, on |-> FALSE, net |-> 0, inst |-> 0]

CoreInit(cfg) ==
  [ now |-> 0, cfg |-> cfg,
    obj |-> [i \in DOMAIN cfg.evts |-> [NewObj([k |-> "evt", x |-> 0, v |-> 0, subs |-> <<>>, ar |-> cfg.evts[i]], 0) EXCEPT !.st = "new"]],
    nets |-> [i \in DOMAIN cfg.nets |->
               [mode |-> "off", cur |-> "", aw |-> 0, rdy |-> FALSE, rid |-> 0, ret |-> -1, mk |-> "END", mkn |-> "", mkt |-> -1, inst |-> 0, zero |-> FALSE,
                pend |-> <<>>, q |-> cfg.nets[i].q, alts |-> {}, gone |-> FALSE, init |-> "", todo |-> ""]],
    stores |-> [i \in DOMAIN cfg.stores |-> [items |-> Rng(cfg.stores[i].items), cap |-> cfg.stores[i].cap, maybe |-> {}, moved |-> -1, back |-> 0]],
    conts |-> [i \in DOMAIN cfg.conts |-> [level |-> cfg.conts[i], lazy |-> FALSE]],
    ress |-> [i \in DOMAIN cfg.ress |-> {}],
    acts |-> [i \in 1..cfg.nact |-> [lin |-> <<Lin, Lin>>, m |-> [v |-> 0, of |-> 0, net |-> 0, inst |-> 0], know |-> {}]],
    watch |-> {}, need |-> {}, dbl |-> FALSE, mute |-> FALSE, slack |-> FALSE, over |-> FALSE, err |-> "", kf |-> "" ]

---------------------------------------------------------------------------
(* Values *)
LinNow(s, a, i) == LET l == s.acts[a].lin[i] IN IF l.on THEN l.v + l.r * (s.now - l.since) ELSE l.v
MimNow(s, a) == IF s.acts[a].m.of # 0 THEN LinNow(s, s.acts[a].m.of, 1) ELSE s.acts[a].m.v
KNames(s, a) == {p[1] : p \in s.acts[a].know}
KObj(s, a, n) == IF \E p \in s.acts[a].know : p[1] = n THEN (CHOOSE p \in s.acts[a].know : p[1] = n)[2] ELSE 0
NetOf(s, a, name) == CHOOSE i \in DOMAIN s.cfg.nets : s.cfg.nets[i].actor = a /\ s.cfg.nets[i].name = name
TaskDef(s, n, name) == LET is == {i \in DOMAIN s.cfg.tasks : s.cfg.tasks[i].net = n /\ s.cfg.tasks[i].name = name}
                       IN IF is = {} THEN [net |-> n, name |-> "?", dflt |-> "", allowed |-> <<>>, kind |-> "none", pol |-> ""]
                          ELSE s.cfg.tasks[CHOOSE i \in is : TRUE]
CurDef(s, n) == TaskDef(s, n, s.nets[n].cur)

(* the task that has to run next on a network with queue q, "" if there is none *)
ExpectedQ(s, n, q) ==
  IF q # <<>> THEN q[1]
  ELSE IF s.nets[n].mode = "first" THEN s.nets[n].init
  ELSE CurDef(s, n).dflt
(* The next task is chosen, and its head removed from the queue, at some point of the instant between   *)
(* the end of the previous task and its start: alts holds the possible <<chosen, queue>> pairs when the *)
(* queue is edited in between.                                                                          *)
Between(t) == t.mode \in {"first", "next"}
Choose1(s, n, p) == IF p[1] # "?" THEN p ELSE <<ExpectedQ(s, n, p[2]), IF p[2] = <<>> THEN p[2] ELSE Tail(p[2])>>
Alts(s, n) == s.nets[n].alts \cup (IF s.nets[n].gone THEN {} ELSE {<<"?", s.nets[n].q>>})
Closure(s, n) == Alts(s, n) \cup {Choose1(s, n, p) : p \in Alts(s, n)}
Expected(s, n) == ExpectedQ(s, n, s.nets[n].q)
Permitted(s, n, name) == s.nets[n].mode = "first" \/ Has(CurDef(s, n).allowed, name)
QueueSet(s, n, list, ok) ==
  LET t == s.nets[n]
      ps == {p \in Closure(s, n) : (p[2] = <<>>) = ok}
  IN IF Between(t)
     THEN LET un == {p \in ps : p[1] = "?"} IN
          [s EXCEPT !.nets[n].alts = {<<p[1], IF ok THEN list ELSE p[2]>> : p \in ps \ un},
                    !.nets[n].q = IF ok THEN list ELSE @,
                    !.nets[n].gone = @ \/ un = {},
                    !.err = IF ps = {} THEN "a queue can be set exactly when it is empty" ELSE @]
     ELSE IF (t.q = <<>>) # ok THEN Fail(s, "a queue can be set exactly when it is empty")
     ELSE IF ok THEN [s EXCEPT !.nets[n].q = list] ELSE s
QueueClear(s, n) ==
  IF Between(s.nets[n])
  THEN [s EXCEPT !.nets[n].alts = {<<p[1], <<>>>> : p \in {x \in Closure(s, n) : x[1] # "?"}}, !.nets[n].q = <<>>]
  ELSE [s EXCEPT !.nets[n].q = <<>>]

---------------------------------------------------------------------------
(* Event objects *)
Matches(b, it) == IF b.k = "fget" THEN it % 2 = b.v ELSE TRUE

Ready(s, o) ==
  LET b == s.obj[o] IN
  /\ b.st = "wait"
  /\ CASE b.k = "wait" -> b.due <= s.now
       [] b.k = "proc" -> b.due <= s.now
       [] b.k = "evt" -> b.trig
       [] b.k \in {"get", "fget"} -> \E it \in s.stores[b.x].items : Matches(b, it)
       [] b.k = "put" -> Cardinality(s.stores[b.x].items) < s.stores[b.x].cap + s.stores[b.x].back
       [] b.k = "cput" -> TRUE
       [] b.k = "cget" -> s.conts[b.x].level >= b.v
       [] b.k = "hold" -> Cardinality(s.ress[b.x]) < s.cfg.ress[b.x]
       [] b.k = "rel" -> TRUE
       [] b.k = "any" -> b.got # {}
       [] b.k = "all" -> b.got = Rng(b.subs)
       [] OTHER -> FALSE

(* is o, directly or as a member, what some task awaits? *)
RECURSIVE Live(_, _)
Live(s, o) == \/ \E n \in DOMAIN s.nets : s.nets[n].aw = o
              \/ \E p \in DOMAIN s.obj : s.obj[p].st = "wait" /\ Has(s.obj[p].subs, o) /\ Live(s, p)

(* must o be complete before time may advance?  A request behind an unsatisfiable older one on a  *)
(* container, or one left there by a cancelled older one, may stay (simpy's own rule).           *)
Due(s, o) ==
  /\ Ready(s, o)
  /\ s.obj[o].k \in {"any", "all"} => Live(s, o)
  /\ s.obj[o].k = "fget" => s.stores[s.obj[o].x].back = 0        \* the match may be waiting for a place in the store
  /\ s.obj[o].k = "put" => Cardinality(s.stores[s.obj[o].x].items \cup s.stores[s.obj[o].x].maybe) < s.stores[s.obj[o].x].cap
  /\ s.obj[o].k = "cget" =>
       /\ ~s.conts[s.obj[o].x].lazy
       /\ \A p \in 1..(o - 1) : ~(s.obj[p].st = "wait" /\ s.obj[p].k = "cget" /\ s.obj[p].x = s.obj[o].x)

(* effect of o completing *)
Bump(s, o) ==
  [s EXCEPT !.obj = [i \in DOMAIN s.obj |->
                       IF s.obj[i].st = "wait" /\ Has(s.obj[i].subs, o) THEN [s.obj[i] EXCEPT !.got = @ \cup {o}] ELSE s.obj[i]],
            !.nets = [n \in DOMAIN s.nets |->
                       IF s.nets[n].aw = o /\ s.nets[n].mode \in {"wait", "cwait"} THEN [s.nets[n] EXCEPT !.rdy = TRUE] ELSE s.nets[n]]]

DoDone(s, o, val) ==
  LET b == s.obj[o]
      s1 == [s EXCEPT !.obj[o].st = "done", !.obj[o].val = val]
      s2 == CASE b.k \in {"get", "fget"} -> [s1 EXCEPT !.stores[b.x].items = @ \ {val}, !.stores[b.x].maybe = @ \ {val}, !.stores[b.x].moved = s.now]
              [] b.k = "put" -> [s1 EXCEPT !.stores[b.x].items = @ \cup {b.v}]
              [] b.k = "cget" -> [s1 EXCEPT !.conts[b.x].level = @ - b.v, !.conts[b.x].lazy = FALSE]
              [] b.k = "hold" -> [s1 EXCEPT !.ress[b.x] = @ \cup {o}]
              [] OTHER -> s1
  IN Bump(s2, o)

Done(s, e) ==
  LET b == s.obj[e.o] IN
  CASE b.st = "canc" -> s                      \* what happens to an abandoned object is nobody's business
    [] b.st # "wait" -> Fail(s, "an event completed that was not pending")
    [] b.k \in {"get", "fget"} ->
         IF ~(e.val \in s.stores[b.x].items \cup s.stores[b.x].maybe) THEN Fail(s, "a get delivered an item that is not in the store")
         ELSE IF ~Matches(b, e.val) THEN Fail(s, "a filtered get delivered an item that does not match")
         ELSE DoDone(s, e.o, e.val)
    [] ~Ready(s, e.o) -> Fail(s, "an event completed too early: " \o b.k)
    [] OTHER -> DoDone(s, e.o, e.val)

(* objects first yielded with this event: requests are issued now *)
RECURSIVE Register(_, _)
Register(s, objs) ==
  IF objs = <<>> THEN s
  ELSE LET o == objs[1]
           b == [NewObj(o, s.now) EXCEPT !.got = {x \in Rng(o.subs) : s.obj[x].st = "done"}]
           s1 == [s EXCEPT !.obj = Append(@, b)]
           s2 == CASE o.k = "cput" -> [s1 EXCEPT !.conts[o.x].level = @ + o.v, !.conts[o.x].lazy = FALSE]
                   [] o.k = "cget" -> [s1 EXCEPT !.conts[o.x].lazy = FALSE]
                   [] o.k \in {"get", "fget"} -> [s1 EXCEPT !.stores[o.x].moved = s.now]
                   [] o.k = "rel" -> [s1 EXCEPT !.ress[o.x] = @ \ {o.v}]
                   [] OTHER -> s1
       IN Register(s2, Tail(objs))

(* shared events named in an expression are reset when complete and yielded again *)
ReArm(s, os) ==
  [s EXCEPT !.obj = [i \in DOMAIN s.obj |->
     IF i \in os /\ s.obj[i].k = "evt" /\ (s.obj[i].st = "new" \/ (s.obj[i].st = "done" /\ s.obj[i].ar))
     THEN [s.obj[i] EXCEPT !.trig = IF s.obj[i].st = "done" THEN FALSE ELSE @, !.canc = IF s.obj[i].st = "done" THEN FALSE ELSE @, !.st = "wait"]
     ELSE s.obj[i]]]

RECURSIVE Cancel(_, _)
RECURSIVE CancelAll(_, _)
CancelAll(s, os) == IF os = <<>> THEN s ELSE CancelAll(Cancel(s, os[1]), Tail(os))
Cancel(s, o) ==
  LET b == s.obj[o] IN
  IF b.k \in {"any", "all"} /\ b.st = "done" THEN CancelAll(s, b.subs)
  ELSE IF b.st # "wait" /\ ~(b.k = "evt" /\ b.st = "new") THEN s
  ELSE CASE b.k = "evt" -> IF b.trig THEN [s EXCEPT !.dbl = @ \/ b.canc] ELSE [s EXCEPT !.obj[o].st = "wait", !.obj[o].trig = TRUE, !.obj[o].canc = TRUE]
         [] b.k \in {"any", "all"} -> CancelAll([s EXCEPT !.obj[o].st = "canc"], b.subs)
         \* a get may have been granted and not yet received: what it took comes back in this instant
         [] b.k \in {"get", "fget"} -> [s EXCEPT !.obj[o].st = "canc", !.stores[b.x].back = @ + 1]
         [] b.k = "put" ->
              LET acc == b.cin = s.now \/ s.stores[b.x].moved = s.now \/ Cardinality(s.stores[b.x].items) < s.stores[b.x].cap
              IN [s EXCEPT !.obj[o].st = "canc", !.stores[b.x].maybe = IF acc THEN @ \cup {b.v} ELSE @]
         [] b.k = "cget" -> [s EXCEPT !.obj[o].st = "canc", !.conts[b.x].lazy = TRUE]
         [] b.k = "proc" -> [s EXCEPT !.obj[o].st = "canc", !.need = IF b.due > s.now THEN @ \cup {o} ELSE @]
         [] OTHER -> [s EXCEPT !.obj[o].st = "canc"]

---------------------------------------------------------------------------
(* Tasks *)
SureFirst(p) == IF \E i \in DOMAIN p : p[i].sure THEN CHOOSE i \in DOMAIN p : p[i].sure /\ \A j \in 1..(i - 1) : ~p[j].sure ELSE 0

(* interrupts that arrive while a routine is cleaned up may go unnoticed *)
Unsure(p) == [i \in DOMAIN p |-> [p[i] EXCEPT !.sure = FALSE]]

Start(s, e) ==
  LET n == e.net
      t == s.nets[n]
      td == TaskDef(s, n, e.name)
      restart == t.mode = "again"
      chosen == t.alts \cup (IF t.gone THEN {} ELSE {Choose1(s, n, <<"?", t.q>>)})
      s1 == [s EXCEPT !.nets[n] = [t EXCEPT !.cur = e.name, !.inst = @ + 1, !.q = IF restart THEN @ ELSE e.q, !.alts = {}, !.gone = FALSE,
                  !.mk = IF restart THEN @ ELSE "END", !.mkn = IF restart THEN @ ELSE "", !.mkt = IF restart THEN @ ELSE -1, !.aw = 0, !.rid = 0, !.rdy = FALSE, !.zero = FALSE,
                  !.mode = IF td.kind = "terminal" THEN "term" ELSE IF td.kind \in {"decision", "skip"} THEN "next" ELSE "run",
                  !.zero = (td.kind = "decision"),
                  !.pend = IF td.kind \in {"decision", "skip"} THEN <<>> ELSE @]]
  IN CASE restart /\ e.name # t.cur -> Fail(s, "another task started where a restart was due")
       [] restart -> IF e.q # t.q THEN Fail(s, "the queue changed on a restart") ELSE [s1 EXCEPT !.nets[n].mode = "run"]
       [] ~(t.mode \in {"first", "next"}) -> Fail(s, "a task started while another one is running on its network")
       [] ~(\E p \in chosen : p[1] = e.name) -> Fail(s, "the task that started is neither the head of the queue nor the default follow-on")
       [] ~(<<e.name, e.q>> \in chosen) -> Fail(s, "starting a task did not remove exactly the head of the queue")
       [] e.run # e.name -> Fail(s, "the running-task query does not name the task that started")
       [] ~Permitted(s, n, e.name) -> [s1 EXCEPT !.kf = "disallowed-follow-on"]
       [] OTHER -> s1

Yield(s, e) ==
  LET n == e.net
      t == s.nets[n]
      s0 == Register(ReArm(s, Rng(e.uses)), e.objs)
      s1 == [s0 EXCEPT !.nets[n].mode = IF t.mode = "run" THEN "wait" ELSE "cwait", !.nets[n].aw = e.o,
                       !.nets[n].rdy = (s0.obj[e.o].st = "done")]
      badevt == \E i \in Rng(e.uses) \cap DOMAIN s.obj : s.obj[i].k = "evt" /\ s.obj[i].st = "done" /\ ~s.obj[i].ar
  IN CASE ~(t.mode \in {"run", "crun"}) -> Fail(s, "a task yielded that should not be running")
       [] badevt -> [s1 EXCEPT !.mute = TRUE, !.over = TRUE, !.slack = TRUE, !.nets[n].mode = "dying"]     \* an error must follow
       [] OTHER -> s1

ExpVal(s, o) == IF s.obj[o].k \in {"get", "fget"} THEN s.obj[o].val ELSE IF s.obj[o].k = "proc" THEN 7 ELSE -1

Resume(s, e) ==
  LET n == e.net
      t == s.nets[n]
  IN CASE ~(t.mode \in {"wait", "cwait"}) -> Fail(s, "a task was resumed that is not waiting: " \o t.mode)
       [] t.aw # e.o -> Fail(s, "a task was resumed by something it does not await")
       [] ~t.rdy -> Fail(s, "a task was resumed although what it awaits is not complete")
       [] t.mode = "wait" /\ t.rid = 0 /\ e.val # -2 /\ e.val # ExpVal(s, e.o) -> Fail(s, "a task received a wrong value from its yield")
       [] OTHER -> [s EXCEPT !.nets[n].mode = IF t.mode = "wait" THEN "run" ELSE "crun", !.nets[n].aw = 0, !.nets[n].rdy = FALSE]

Act(s, e) ==
  LET a == e.actor
      l == s.acts[a].lin[e.i]
      t == s.nets[e.net]
  IN CASE l.on -> IF e.exc = "" THEN Fail(s, "a state locked by a task was activated by another") ELSE s
       [] e.exc # "" -> Fail(s, "activating a state failed: " \o e.exc)
       [] OTHER -> [s EXCEPT !.acts[a].lin[e.i] = [v |-> LinNow(s, a, e.i), r |-> e.rate, since |-> s.now, on |-> TRUE, net |-> e.net, inst |-> t.inst]]
Stop(s, a, i) == [s EXCEPT !.acts[a].lin[i] = [@ EXCEPT !.v = LinNow(s, a, i), !.on = FALSE, !.r = 0]]
Deact(s, e) ==
  LET l == s.acts[e.actor].lin[e.i]
      own == l.on /\ l.net = e.net /\ l.inst = s.nets[e.net].inst
  IN IF own # (e.exc = "") THEN Fail(s, "deactivating a state: wrong outcome") ELSE IF own THEN Stop(s, e.actor, e.i) ELSE s
StopMim(s, a) == [s EXCEPT !.acts[a].m = [v |-> MimNow(s, a), of |-> 0, net |-> 0, inst |-> 0]]
Mimic(s, e) ==
  LET m == s.acts[e.actor].m IN
  CASE m.of # 0 -> IF e.exc = "" THEN Fail(s, "a state mimics two states") ELSE s
    [] e.exc # "" -> Fail(s, "activating a mimic state failed: " \o e.exc)
    [] OTHER -> [s EXCEPT !.acts[e.actor].m = [v |-> 0, of |-> e.of, net |-> e.net, inst |-> s.nets[e.net].inst]]
Unmimic(s, e) ==
  LET m == s.acts[e.actor].m
      own == m.of # 0 /\ m.net = e.net /\ m.inst = s.nets[e.net].inst
  IN IF own # (e.exc = "") THEN Fail(s, "deactivating a mimic state: wrong outcome") ELSE IF own THEN StopMim(s, e.actor) ELSE s

(* everything the current task of network n activated on its actor *)
RECURSIVE StopOwned(_, _, _)
StopOwned(s, n, i) ==
  LET a == s.cfg.nets[n].actor
      inst == s.nets[n].inst
  IN IF i = 3 THEN (IF s.acts[a].m.of # 0 /\ s.acts[a].m.net = n /\ s.acts[a].m.inst = inst THEN StopMim(s, a) ELSE s)
     ELSE StopOwned(IF s.acts[a].lin[i].on /\ s.acts[a].lin[i].net = n /\ s.acts[a].lin[i].inst = inst THEN Stop(s, a, i) ELSE s, n, i + 1)

(* END or RESTART of the current task of n *)
Break(s, n, action) ==
  LET t == s.nets[n]
      a == s.cfg.nets[n].actor
      s1 == StopOwned(s, n, 1)
      s2 == [s1 EXCEPT !.acts[a].know = {p \in @ : p[2] # t.aw}]
      s3 == IF s2.obj[t.aw].k = "evt" /\ s2.obj[t.aw].trig THEN s2 ELSE Cancel(s2, t.aw)
  IN [s3 EXCEPT !.nets[n].aw = 0, !.nets[n].rdy = FALSE, !.nets[n].todo = action,
                !.nets[n].mode = IF t.rid # 0 THEN "clean" ELSE IF action = "END" THEN "next" ELSE "again",
                !.nets[n].pend = IF action = "END" THEN <<>> ELSE IF t.rid # 0 THEN Unsure(@) ELSE @]

Intr(s, e) ==
  LET n == e.net
      t == s.nets[n]
      \* entries that may have been lost can be skipped
      k == IF \E i \in DOMAIN t.pend : t.pend[i].c = e.cause /\ \A j \in 1..(i - 1) : ~t.pend[j].sure
           THEN CHOOSE i \in DOMAIN t.pend : t.pend[i].c = e.cause /\ \A j \in 1..(i - 1) : ~t.pend[j].sure ELSE 0
      s1 == [s EXCEPT !.nets[n].pend = SubSeq(@, k + 1, Len(@))]
      act == IF e.custom THEN e.act ELSE t.mk
  IN CASE k = 0 -> Fail(s, "on_interrupt was called without such an interrupt: " \o e.cause)
       [] t.mode # "wait" -> Fail(s, "on_interrupt was called for a task that is not waiting: " \o t.mode)
       [] e.mk # t.mkn \/ e.mkt # t.mkt -> Fail(s, "the marker or its time is not the one last set")
       [] ~e.custom /\ e.act # t.mk -> Fail(s, "without a handler the last set marker decides; got " \o e.act)
       [] act = "IGNORE" -> s1
       [] act \in {"END", "RESTART"} -> Break(s1, n, act)
       [] OTHER -> [s1 EXCEPT !.over = TRUE, !.mute = TRUE, !.nets[n].mode = "dying"]      \* no action returned: an error must follow

Rcancel(s, e) ==
  LET t == s.nets[e.net] IN
  IF t.mode # "clean" \/ t.rid # e.rid THEN Fail(s, "a routine was cleaned up although it was not interrupted, or twice")
  ELSE [s EXCEPT !.nets[e.net].mode = "crun", !.nets[e.net].rid = 0]
Rcend(s, e) ==
  LET t == s.nets[e.net] IN
  IF t.mode # "crun" THEN Fail(s, "a clean-up ended that was not running")
  ELSE [s EXCEPT !.nets[e.net].mode = IF t.todo = "END" THEN "next" ELSE "again", !.nets[e.net].pend = IF t.todo = "END" THEN <<>> ELSE @]
Rstart(s, e) ==
  LET t == s.nets[e.net] IN
  IF t.mode # "run" \/ t.rid # 0 THEN Fail(s, "a routine started outside of a running task") ELSE [s EXCEPT !.nets[e.net].rid = e.rid, !.nets[e.net].ret = -1]
Rend(s, e) ==
  LET t == s.nets[e.net] IN
  IF t.mode # "run" \/ t.rid # e.rid THEN Fail(s, "a routine ended that was not running") ELSE [s EXCEPT !.nets[e.net].rid = 0, !.nets[e.net].ret = e.val]
Rret(s, e) ==
  LET t == s.nets[e.net] IN
  IF t.mode # "run" \/ t.rid # 0 THEN Fail(s, "a task continued while its routine is running")
  ELSE IF e.val # t.ret THEN Fail(s, "a task received a wrong value from a routine") ELSE s

---------------------------------------------------------------------------
(* Interrupts, watching *)
Push(s, n, c) ==
  LET t == s.nets[n] IN
  CASE t.mode \in {"off", "dead"} -> s
    [] t.mode = "first" \/ t.mode = "next" -> [s EXCEPT !.nets[n].pend = Append(@, [c |-> c, sure |-> FALSE])]
    [] t.mode \in {"clean", "crun", "cwait"} -> IF t.todo = "END" THEN s ELSE [s EXCEPT !.nets[n].pend = Append(@, [c |-> c, sure |-> FALSE])]
    [] OTHER -> [s EXCEPT !.nets[n].pend = Append(@, [c |-> c, sure |-> TRUE])]
RECURSIVE PushAll(_, _, _)
PushAll(s, ns, c) == IF ns = {} THEN s ELSE LET n == CHOOSE x \in ns : TRUE IN PushAll(Push(s, n, c), ns \ {n}, c)

SetW(s, e) ==
  LET ns == {w[3] : w \in {x \in s.watch : x[1] = e.actor /\ x[2] = e.st}} IN
  IF e.exc # "" THEN Fail(s, "setting a state failed: " \o e.exc) ELSE PushAll(s, ns, e.cause)

IntrN(s, e) ==
  LET t == s.nets[e.net] IN
  CASE s.dbl /\ e.exc # "" -> s
    [] t.mode \in {"run", "wait", "again", "clean", "crun", "cwait"} \/ (t.mode = "term" /\ (t.pend = <<>> \/ e.exc = "")) ->
         IF e.exc # "" THEN Fail(s, "interrupting a running task failed: " \o e.exc) ELSE Push(s, e.net, e.cause)
    [] t.mode = "term" /\ t.pend # <<>> /\ e.exc # "" -> s        \* the first interrupt has ended it, with an error
    [] t.mode = "off" -> IF e.exc = "" THEN Fail(s, "interrupting a network that is not running did not fail") ELSE s
    [] OTHER -> IF e.exc = "" THEN Push(s, e.net, e.cause) ELSE s

Succ(s, e) ==
  LET b == s.obj[e.o] IN
  IF b.trig \/ b.st = "done"
  THEN IF e.exc = "" /\ ~s.dbl THEN Fail(s, "an event was succeeded twice") ELSE s
  ELSE IF e.exc # "" THEN Fail(s, "succeeding an event failed: " \o e.exc)
  ELSE [s EXCEPT !.obj[e.o].trig = TRUE, !.obj[e.o].st = "wait", !.obj[e.o].pay = e.pay]

KSucc(s, e) ==
  LET o == KObj(s, e.actor, e.name) IN
  IF o = 0 THEN (IF e.exc = "" THEN Fail(s, "succeeding missing knowledge did not fail") ELSE s)
  ELSE IF e.exc # "" THEN Fail(s, "succeeding a knowledge event failed: " \o e.exc)
  ELSE [s EXCEPT !.acts[e.actor].know = {p \in @ : p[1] # e.name}, !.obj[o].trig = TRUE, !.obj[o].pay = e.pay]

---------------------------------------------------------------------------
(* Observations at a quiescent point *)
Busy(t) == t.mode \in {"run", "crun", "first", "again", "clean"} \/ t.mode = "next"
Enabled(s, n) == (s.nets[n].mode = "wait" /\ (s.nets[n].rdy \/ SureFirst(s.nets[n].pend) # 0)) \/ (s.nets[n].mode = "cwait" /\ s.nets[n].rdy)

Quiet(s) ==
  CASE \E n \in DOMAIN s.nets : s.nets[n].mode = "next" -> "the next task did not start in the instant the previous one finished"
    [] \E n \in DOMAIN s.nets : s.nets[n].mode = "again" -> "a restarted task did not start again in the same instant"
    [] \E n \in DOMAIN s.nets : s.nets[n].mode = "first" -> "a started network did not start its first task"
    [] \E n \in DOMAIN s.nets : s.nets[n].mode = "clean" -> "an interrupted routine was not cleaned up"
    [] \E n \in DOMAIN s.nets : Busy(s.nets[n]) -> "a running task stopped without yielding or ending"
    [] \E n \in DOMAIN s.nets : s.nets[n].mode = "term" /\ SureFirst(s.nets[n].pend) # 0 -> "a terminal task accepted an interrupt"
    [] \E n \in DOMAIN s.nets : s.nets[n].mode = "wait" /\ SureFirst(s.nets[n].pend) # 0 -> "an interrupt was not delivered in its instant"
    [] \E o \in DOMAIN s.obj : Due(s, o) -> "an event did not complete in the instant in which it is due: "
                                              \o s.obj[CHOOSE o \in DOMAIN s.obj : Due(s, o)].k
    [] \E n \in DOMAIN s.nets : Enabled(s, n) -> "a task was not resumed in the instant in which what it awaits completed"
    [] s.need # {} -> "an awaited process was not interrupted when its task ended"
    [] s.mute -> "an error was due"
    [] OTHER -> ""

StoreOk(s, i, e) ==
  LET x == Rng(e.stores[i].items) \cup Rng(e.stores[i].limbo)
      b == s.stores[i]
  IN /\ b.items \subseteq x /\ x \subseteq b.items \cup b.maybe
     /\ Cardinality(x) = Len(e.stores[i].items) + Len(e.stores[i].limbo)
     /\ e.stores[i].limbo = <<>> \/ Len(e.stores[i].items) >= b.cap
     /\ Len(e.stores[i].items) <= b.cap

StOk(s, i, c) == LET b == s.obj[i] IN
  CASE b.st = "done" -> c = 1
    [] b.st \in {"wait", "new"} -> c = 0
    [] OTHER -> TRUE

ActOk(s, a, e) == /\ e.acts[a].a = LinNow(s, a, 1) /\ e.acts[a].b = LinNow(s, a, 2)
MimOk(s, a, e) == e.acts[a].m = MimNow(s, a)
QOk(s, n, e) == LET q == s.nets[n].q IN e.nets[n].q = q /\ e.nets[n].nxt = (IF q = <<>> THEN "" ELSE q[1])
RunOk(s, n, e) == LET t == s.nets[n] IN t.mode \in {"wait", "cwait", "term"} => e.nets[n].run = t.cur

Snap(s, e) ==
  LET q == Quiet(s) IN
  CASE q # "" -> Fail(s, q)
    [] \E i \in DOMAIN e.stores : ~StoreOk(s, i, e) -> Fail(s, "an item was lost or duplicated")
    [] \E i \in DOMAIN e.conts : e.conts[i] # s.conts[i].level -> Fail(s, "an amount was lost or duplicated")
    [] \E i \in DOMAIN e.ress : e.ress[i] # Cardinality(s.ress[i]) -> Fail(s, "units in use differ from the units held")
    [] \E i \in DOMAIN e.objs : ~StOk(s, i, e.objs[i].c) -> Fail(s, "an event's completion is reported wrongly")
    [] \E i \in DOMAIN e.objs : s.obj[i].k = "evt" /\ s.obj[i].st # "canc" /\ e.objs[i].pay # s.obj[i].pay -> Fail(s, "an event's payload is not the one of its success")
    [] \E i \in DOMAIN e.objs : s.obj[i].k \in {"get", "fget"} /\ s.obj[i].st = "done" /\ e.objs[i].gv # s.obj[i].val -> Fail(s, "a get's value is not the delivered item")
    [] \E i \in DOMAIN e.objs : s.obj[i].k \in {"get", "fget"} /\ s.obj[i].st = "wait" /\ e.objs[i].gv # -1 -> Fail(s, "a pending get's value query did not raise a simulation error")
    [] \E a \in DOMAIN s.acts : ~ActOk(s, a, e) -> Fail(s, "an active state is not on its course (wrongly stopped or not stopped)")
    [] \E a \in DOMAIN s.acts : ~MimOk(s, a, e) -> Fail(s, "a mimic state is wrong (wrongly stopped or not stopped)")
    [] \E a \in DOMAIN s.acts : Rng(e.acts[a].know) # KNames(s, a) -> Fail(s, "the actor's knowledge events differ")
    [] \E n \in DOMAIN s.nets : ~QOk(s, n, e) -> Fail(s, "a queue query is wrong")
    [] \E n \in DOMAIN s.nets : ~RunOk(s, n, e) -> Fail(s, "a running-task query is wrong")
    [] OTHER -> [s EXCEPT !.stores = [i \in DOMAIN s.stores |-> [s.stores[i] EXCEPT !.items = Rng(e.stores[i].items) \cup Rng(e.stores[i].limbo), !.maybe = {}, !.back = Len(e.stores[i].limbo)]],
                          !.nets = [n \in DOMAIN s.nets |-> [s.nets[n] EXCEPT !.pend = <<>>]]]

Tick(s, e) ==
  CASE Quiet(s) # "" -> Fail(s, Quiet(s))
    [] e.to <= s.now -> Fail(s, "time did not advance")
    [] \E o \in DOMAIN s.obj : s.obj[o].st = "wait" /\ s.obj[o].k \in {"wait", "proc"} /\ s.obj[o].due < e.to -> Fail(s, "time went past the completion of a wait")
    [] OTHER -> [s EXCEPT !.now = e.to, !.dbl = FALSE]

(* an exception out of the event loop: legal only where the framework documents one *)
Doomed(s, e) ==
  \/ s.over
  \/ \E n \in DOMAIN s.nets : s.nets[n].mode = "term" /\ s.nets[n].pend # <<>>
  \/ \E n \in DOMAIN s.nets : s.nets[n].mode \in {"first", "next"} /\ (\E p \in Closure(s, n) : Choose1(s, n, p)[1] = "" \/ ~Permitted(s, n, Choose1(s, n, p)[1]))
  \/ s.dbl /\ e.why = "cancel"     \* cancelling a compound event whose member was cancelled in the same instant (tested behaviour)
Crash(s, e) ==
  IF ~Doomed(s, e) THEN Fail(s, "the simulation failed: " \o e.exc)
  ELSE IF ~(e.exc \in {"SimulationError", "UpstageError"}) THEN Fail(s, "the wrong kind of error was raised: " \o e.exc)
  ELSE [s EXCEPT !.kf = IF s.dbl /\ e.why = "cancel" THEN "shared-event-cancelled-twice" ELSE "", !.over = TRUE, !.mute = FALSE, !.nets = [n \in DOMAIN s.nets |-> [s.nets[n] EXCEPT !.mode = "dead"]]]

---------------------------------------------------------------------------
Dead(s) == \E n \in DOMAIN s.nets : s.nets[n].mode = "dead"

CoreStep0(s, e) ==
  CASE e.op = "done" -> Done(s, e)
    [] e.op = "start" -> Start(s, e)
    [] e.op = "yield" -> Yield(s, e)
    [] e.op = "resume" -> Resume(s, e)
    [] e.op = "end" -> IF s.nets[e.net].mode # "run" THEN Fail(s, "a task ended that was not running")
                       ELSE [s EXCEPT !.nets[e.net].mode = "next", !.nets[e.net].pend = <<>>]
    [] e.op = "rstart" -> Rstart(s, e)
    [] e.op = "rend" -> Rend(s, e)
    [] e.op = "rret" -> Rret(s, e)
    [] e.op = "rcancel" -> Rcancel(s, e)
    [] e.op = "rcend" -> Rcend(s, e)
    [] e.op = "intr" -> Intr(s, e)
    [] e.op = "pintr" -> IF e.o \in s.need \/ (s.obj[e.o].st = "canc" /\ s.obj[e.o].due = s.now) THEN [s EXCEPT !.need = @ \ {e.o}] ELSE Fail(s, "an awaited process was interrupted for no reason")
    [] e.op = "act" -> Act(s, e)
    [] e.op = "deact" -> Deact(s, e)
    [] e.op = "mimic" -> Mimic(s, e)
    [] e.op = "unmimic" -> Unmimic(s, e)
    [] e.op = "mark" -> [s EXCEPT !.nets[e.net].mk = e.act, !.nets[e.net].mkn = e.mk, !.nets[e.net].mkt = IF e.mk = "" THEN -1 ELSE s.now]
    [] e.op = "succ" -> Succ(s, e)
    [] e.op = "reset" -> [s EXCEPT !.obj[e.o].st = "new", !.obj[e.o].trig = FALSE, !.obj[e.o].canc = FALSE]
    [] e.op = "kset" -> IF (e.name \in KNames(s, e.actor)) # (e.exc # "") THEN Fail(s, "creating a knowledge event: wrong outcome")
                        ELSE IF e.exc # "" THEN s
                        ELSE [Register(s, <<[k |-> "evt", x |-> 0, v |-> 0, subs |-> <<>>, ar |-> TRUE]>>)
                                EXCEPT !.acts[e.actor].know = @ \cup {<<e.name, Len(s.obj) + 1>>}]
    [] e.op = "kalias" -> [s EXCEPT !.acts[e.to].know = @ \cup {<<e.new, KObj(s, e.actor, e.name)>>}]
    [] e.op = "ksucc" -> KSucc(s, e)
    [] e.op = "kclear" -> IF (e.name \in KNames(s, e.actor)) # (e.exc = "") THEN Fail(s, "clearing knowledge: wrong outcome")
                          ELSE [s EXCEPT !.acts[e.actor].know = {p \in @ : p[1] # e.name}]
    [] e.op = "setw" -> SetW(s, e)
    [] e.op = "nucadd" -> [s EXCEPT !.watch = @ \cup {<<e.actor, st, e.net>> : st \in Rng(e.sts)}]
    [] e.op = "nucrm" -> IF e.exc # "" THEN Fail(s, "removing a network from the nucleus failed: " \o e.exc)
                         ELSE [s EXCEPT !.watch = {w \in @ : w[3] # e.net}]
    [] e.op = "setq" -> QueueSet(s, e.net, e.list, e.exc = "")
    [] e.op = "clearq" -> QueueClear(s, e.net)
    [] e.op = "intrn" -> IntrN(s, e)
    [] e.op = "loop" -> [s EXCEPT !.nets[e.net].mode = "first", !.nets[e.net].init = e.name]
    [] e.op = "xput" -> [s EXCEPT !.stores[e.r].items = @ \cup {e.v}]
    [] e.op = "xcput" -> [s EXCEPT !.conts[e.r].level = @ + e.v, !.conts[e.r].lazy = FALSE]
    [] e.op = "cancel" -> IF e.exc # "" THEN Fail(s, "cancelling failed: " \o e.exc) ELSE Cancel(s, e.o)
    [] e.op = "snap" -> Snap(s, e)
    [] e.op = "tick" -> Tick(s, e)
    [] e.op = "crash" -> Crash(s, e)
    [] OTHER -> Fail(s, "unknown event " \o e.op)

CoreStep(s, e) ==
  CASE e.t # s.now /\ e.op # "tick" -> Fail(s, "something happened at the wrong time")
    [] Dead(s) -> s
    [] s.slack /\ ~(e.op \in {"crash", "tick", "snap"}) -> s      \* a refused yield may have issued some of its requests
    [] OTHER -> CoreStep0(s, e)
=============================================================================

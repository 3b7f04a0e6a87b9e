------------------------------- MODULE CoreMC -------------------------------
(* Closes Core with small task scripts and an environment that interrupts,  *)
(* puts, succeeds, edits queues and assigns watched states at any point of  *)
(* any instant.  Every order of the enabled steps within an instant is      *)
(* explored; the outside actions taken are printed as programs for the code.*)
EXTENDS Core, Json
CONSTANTS Which, K, H, Gen
VARIABLES z, code, pi, hist, left,
          fresh     \* nothing internal has happened in this instant yet

W(d) == [s |-> "wait", d |-> d]
GetS == [s |-> "get", r |-> 1]
PutS == [s |-> "put", r |-> 1]
FGet(v) == [s |-> "fget", r |-> 1, v |-> v]
CGet(v) == [s |-> "cget", r |-> 1, v |-> v]
CPut(v) == [s |-> "cput", r |-> 1, v |-> v]
Ev(i) == [s |-> "evt", e |-> i]
AnyS(m) == [s |-> "any", m |-> m]
AllS(m) == [s |-> "all", m |-> m]
HoldS == [s |-> "hold", r |-> 1]
RelS == [s |-> "rel"]
Rout(steps, cancel, ret) == [s |-> "rout", steps |-> steps, cancel |-> cancel, ret |-> ret]
Mark(a) == [s |-> "mark", a |-> a]
Actv(r) == [s |-> "act", i |-> 1, rate |-> r]

Normal(n, name, steps, pol) == [net |-> n, name |-> name, dflt |-> name, allowed |-> <<name>>, kind |-> "normal", steps |-> steps, pol |-> pol]
Net(a, name) == [actor |-> a, name |-> name, q |-> <<>>]
Pols == {<<"END">>, <<"IGNORE">>, <<"RESTART">>}
Base == [nact |-> 1, nets |-> <<Net(1, "N1"), Net(1, "N2")>>, evts |-> <<TRUE>>, stores |-> <<[items |-> <<1>>, cap |-> 1]>>, conts |-> <<2>>, ress |-> <<1>>]

Two(c, s1, s2, p, q) == [cfg |-> c, tasks |-> <<Normal(1, "T1", s1, p), Normal(2, "T2", s2, q)>>]
One(c, s1, p) == [cfg |-> [c EXCEPT !.nets = <<Net(1, "N1")>>], tasks |-> <<Normal(1, "T1", s1, p)>>]

LinkSets == {<<>>, <<"T1">>, <<"T2">>, <<"T1", "T2">>}
Scenarios ==
  CASE Which = "store" -> {Two(Base, <<AnyS(<<GetS, W(1)>>), W(1)>>, t2, p, q) : t2 \in {<<PutS, W(2)>>, <<GetS, W(1)>>}, p \in Pols, q \in Pols}
    [] Which = "filter" -> {Two([Base EXCEPT !.stores = <<[items |-> <<1, 2>>, cap |-> c]>>], <<FGet(1), W(1)>>, <<AnyS(<<FGet(v), W(1)>>), PutS, W(1)>>, p, q) : c \in {2, 3}, v \in 0..1, p \in Pols, q \in Pols}
    [] Which = "cont" -> {Two(Base, <<CGet(2), W(1)>>, <<t2, CPut(1), W(1)>>, p, q) : t2 \in {CGet(1), CGet(2), AnyS(<<CGet(1), W(1)>>)}, p \in Pols, q \in Pols}
    [] Which = "hold" -> {Two(Base, <<HoldS, W(1), RelS, W(1)>>, <<HoldS, RelS, W(1)>>, p, q) : p \in Pols, q \in {<<"IGNORE">>, <<"RESTART">>}}
    [] Which = "event" -> {Two([Base EXCEPT !.evts = <<TRUE, TRUE>>], <<e1, W(1)>>, <<e2, W(1)>>, p, q) :
                             e1 \in {AnyS(<<Ev(1), W(1)>>), AllS(<<Ev(1), W(1)>>)}, e2 \in {Ev(1), AllS(<<Ev(2), AnyS(<<W(1), GetS>>)>>)}, p \in {<<"IGNORE">>, <<"RESTART">>}, q \in {<<"END">>, <<"IGNORE">>}}
    [] Which = "intr" -> {One([Base EXCEPT !.evts = <<TRUE>>], <<Actv(1), st, Mark(m), W(1)>>, p) : st \in {W(2), AnyS(<<Ev(1), W(2)>>), AllS(<<GetS, W(1)>>), GetS}, m \in {"END", "IGNORE", "RESTART"}, p \in Pols \cup {<<>>, <<"RESTART", "END">>, <<"IGNORE", "RESTART">>}}
    [] Which = "rout" -> {Two(Base, <<GetS, Rout(<<AnyS(<<GetS, W(1)>>), W(1)>>, c, 55), W(1)>>, <<PutS, W(1)>>, p, q) :
                             c \in {<<>>, <<W(1)>>, <<PutS>>, <<W(0), W(1)>>}, p \in Pols \cup {<<"RESTART", "END">>}, q \in {<<"IGNORE">>}}
    [] Which = "queue" -> {[cfg |-> [Base EXCEPT !.nets = <<[Net(1, "N1") EXCEPT !.q = q0]>>],
                            tasks |-> <<[net |-> 1, name |-> "T1", dflt |-> "T1", allowed |-> <<"T1", "T2", "T3">>, kind |-> "normal", steps |-> <<W(1)>>, pol |-> <<"END">>],
                                        [net |-> 1, name |-> "T2", dflt |-> d2, allowed |-> <<"T1", "T2", "T3">>, kind |-> "normal", steps |-> <<[s |-> "setq", net |-> 1, list |-> <<"T1", "T2">>], W(1)>>, pol |-> <<"END">>],
                                        [net |-> 1, name |-> "T3", dflt |-> "T1", allowed |-> <<"T1", "T2">>, kind |-> "decision", steps |-> ds, pol |-> <<>>]>>] :
                              q0 \in {<<>>, <<"T2">>, <<"T3", "T1">>}, d2 \in {"T1", "T3", ""}, ds \in {<<>>, <<[s |-> "setq", net |-> 1, list |-> <<"T2">>]>>, <<[s |-> "clearq", net |-> 1]>>}}
    [] Which = "nucleus" -> {[Two(Base, <<W(1), AnyS(<<Ev(1), W(2)>>)>>, <<W(2)>>, p, q) EXCEPT !.cfg.nact = 1] : p \in Pols, q \in {<<"END">>, <<"RESTART">>}}
    [] OTHER -> {}

Prog == pi

---------------------------------------------------------------------------
(* scripts -> micro operations *)
RECURSIVE Flat(_, _)
Flat(steps, r) ==
  IF steps = <<>> THEN <<>>
  ELSE LET x == steps[1]
           y == IF x.s = "rout" THEN <<[s |-> "rstart", rid |-> r, cancel |-> x.cancel]>> \o Flat(x.steps, r + 1) \o <<[s |-> "rend", rid |-> r, val |-> x.ret], [s |-> "rret", val |-> x.ret]>>
                ELSE <<x>>
       IN y \o Flat(Tail(steps), r + 1)

RECURSIVE Expand(_, _, _)
RECURSIVE ExpandAll(_, _, _)
Expand(st, base, hold) ==
  CASE st.s = "evt" -> [objs |-> <<>>, id |-> st.e, uses |-> <<st.e>>]
    [] st.s = "wait" -> [objs |-> <<[k |-> "wait", x |-> st.d, v |-> 0, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] st.s = "put" -> [objs |-> <<[k |-> "put", x |-> st.r, v |-> 100 + base, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] st.s = "get" -> [objs |-> <<[k |-> "get", x |-> st.r, v |-> 0, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] st.s \in {"cget", "cput", "fget"} -> [objs |-> <<[k |-> st.s, x |-> st.r, v |-> st.v, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] st.s = "hold" -> [objs |-> <<[k |-> "hold", x |-> st.r, v |-> 0, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] st.s = "rel" -> [objs |-> <<[k |-> "rel", x |-> 1, v |-> hold, subs |-> <<>>, ar |-> TRUE]>>, id |-> base + 1, uses |-> <<base + 1>>]
    [] OTHER -> LET ps == ExpandAll(st.m, base, hold)
                    o == base + Len(ps.objs) + 1
                IN [objs |-> Append(ps.objs, [k |-> st.s, x |-> 0, v |-> 0, subs |-> ps.ids, ar |-> TRUE]), id |-> o, uses |-> <<o>> \o ps.uses]
ExpandAll(ms, base, hold) ==
  IF ms = <<>> THEN [objs |-> <<>>, ids |-> <<>>, uses |-> <<>>]
  ELSE LET a == Expand(ms[1], base, hold)
           b == ExpandAll(Tail(ms), base + Len(a.objs), hold)
       IN [objs |-> a.objs \o b.objs, ids |-> <<a.id>> \o b.ids, uses |-> a.uses \o b.uses]

---------------------------------------------------------------------------
TaskOf(n) == LET i == CHOOSE i \in DOMAIN pi.tasks : pi.tasks[i].net = n /\ pi.tasks[i].name = z.nets[n].cur IN pi.tasks[i]
TaskNamed(n, name) == pi.tasks[CHOOSE i \in DOMAIN pi.tasks : pi.tasks[i].net = n /\ pi.tasks[i].name = name]
Step1(e) == z' = CoreStep([z EXCEPT !.kf = ""], e @@ [t |-> z.now])
Nets == DOMAIN pi.cfg.nets
CfgOf(p) == p.cfg @@ [tasks |-> [i \in DOMAIN p.tasks |-> [net |-> p.tasks[i].net, name |-> p.tasks[i].name, dflt |-> p.tasks[i].dflt, allowed |-> p.tasks[i].allowed, kind |-> p.tasks[i].kind]]]

RECURSIVE LoopAll(_, _, _)
LoopAll(st, p, n) == IF n > Len(p.cfg.nets) THEN st
                     ELSE LoopAll(CoreStep(st, [op |-> "loop", t |-> 0, net |-> n, name |-> IF p.cfg.nets[n].q # <<>> THEN p.cfg.nets[n].q[1] ELSE "T" \o ToString(n)]), p, n + 1)

NucSet(p) == IF Which = "nucleus" THEN {<<1, "w1", 1>>} ELSE {}
NucOps(p) == IF Which = "nucleus" THEN <<[s |-> "nucadd", net |-> 1, sts |-> <<"w1">>, obj |-> FALSE]>> ELSE <<>>
MCInit == \E p \in Scenarios :
            /\ pi = p
            /\ z = [LoopAll(CoreInit(CfgOf(p)), p, 1) EXCEPT !.watch = NucSet(p)]
            /\ code = [n \in 1..2 |-> [c |-> <<>>, hold |-> 0, pol |-> 1, cancel |-> <<>>]]
            /\ hist = <<>>
            /\ left = K
            /\ fresh = FALSE

(* one internal step of network n *)
Internal(n) ==
  LET t == z.nets[n]
      c == code[n].c
      h == code[n].hold
      op == c[1]
      adv == [code EXCEPT ![n].c = Tail(c)]
  IN
  \/ /\ t.mode \in {"first", "next"}
     /\ LET nm == Expected(z, n)
            q2 == IF t.q = <<>> THEN <<>> ELSE Tail(t.q)
        IN IF nm = "" THEN Step1([op |-> "crash", exc |-> "SimulationError", why |-> ""]) /\ UNCHANGED code
           ELSE /\ Step1([op |-> "start", net |-> n, name |-> nm, q |-> q2, run |-> nm])
                /\ LET td == TaskNamed(n, nm) IN code' = [code EXCEPT ![n].c = IF td.kind = "decision" THEN [i \in DOMAIN td.steps |-> td.steps[i] @@ [dec |-> TRUE]] ELSE Flat(td.steps, 1), ![n].hold = 0]
  \/ /\ t.mode = "again"
     /\ Step1([op |-> "start", net |-> n, name |-> t.cur, q |-> t.q, run |-> t.cur])
     /\ code' = [code EXCEPT ![n].c = Flat(TaskOf(n).steps, 1), ![n].hold = 0]
  \/ /\ t.mode = "clean"
     /\ Step1([op |-> "rcancel", net |-> n, rid |-> t.rid])
     /\ code' = [code EXCEPT ![n].c = Append(code[n].cancel, [s |-> "rcend"])]
  \/ /\ t.mode \in {"run", "crun"} /\ c = <<>>
     /\ Step1([op |-> "end", net |-> n]) /\ UNCHANGED code
  \/ /\ t.mode \in {"run", "crun"} /\ c # <<>>
     /\ CASE op.s = "rstart" -> Step1([op |-> "rstart", net |-> n, rid |-> op.rid]) /\ code' = [adv EXCEPT ![n].cancel = op.cancel]
          [] op.s = "rend" -> Step1([op |-> "rend", net |-> n, rid |-> op.rid, val |-> op.val]) /\ code' = adv
          [] op.s = "rret" -> Step1([op |-> "rret", net |-> n, val |-> op.val]) /\ code' = adv
          [] op.s = "rcend" -> Step1([op |-> "rcend", net |-> n]) /\ code' = adv
          [] op.s = "mark" -> Step1([op |-> "mark", net |-> n, act |-> op.a, mk |-> "m"]) /\ code' = adv
          [] op.s = "act" -> Step1([op |-> "act", net |-> n, actor |-> z.cfg.nets[n].actor, i |-> op.i, rate |-> op.rate,
                                    exc |-> IF z.acts[z.cfg.nets[n].actor].lin[op.i].on THEN "SimulationError" ELSE ""]) /\ code' = adv
          [] op.s = "setq" -> Step1([op |-> "setq", net |-> n, list |-> op.list, exc |-> IF t.q = <<>> THEN "" ELSE "SimulationError"]) /\ code' = adv
          [] OTHER -> LET x == Expand(op, Len(z.obj), h)
                      IN Step1([op |-> "yield", net |-> n, o |-> x.id, objs |-> x.objs, uses |-> x.uses])
                         /\ code' = [adv EXCEPT ![n].hold = IF op.s = "hold" THEN x.id ELSE @]
  \/ /\ t.mode = "next" /\ c # <<>>                   \* the body of a decision task
     /\ "dec" \in DOMAIN op
     /\ IF op.s = "setq" THEN Step1([op |-> "setq", net |-> n, list |-> op.list, exc |-> IF t.q = <<>> THEN "" ELSE "SimulationError"])
        ELSE Step1([op |-> "clearq", net |-> n])
     /\ code' = adv
  \/ /\ t.mode \in {"wait", "cwait"} /\ t.rdy /\ (Gen => t.mode = "cwait" \/ t.pend = <<>>)
     /\ Step1([op |-> "resume", net |-> n, o |-> t.aw, val |-> -2]) /\ UNCHANGED code
  \/ /\ t.mode = "wait" /\ t.pend # <<>>
     /\ LET p == TaskOf(n).pol
            i == code[n].pol
            a == IF p = <<>> THEN t.mk ELSE p[((i - 1) % Len(p)) + 1]
        IN /\ Step1([op |-> "intr", net |-> n, cause |-> t.pend[1].c, act |-> a, custom |-> p # <<>>, mk |-> t.mkn, mkt |-> t.mkt])
           /\ code' = [code EXCEPT ![n].pol = i + 1]

(* the body of a decision task is executed before the next task starts *)
Deciding(n) == z.nets[n].mode = "next" /\ code[n].c # <<>> /\ "dec" \in DOMAIN code[n].c[1]

(* When programs are written only the outside actions matter: one order of the internal steps is enough. *)
Can(n) == LET t == z.nets[n] IN \/ t.mode \in {"first", "next", "again", "clean", "run", "crun"}
                                \/ t.mode \in {"wait", "cwait"} /\ t.rdy
                                \/ t.mode = "wait" /\ t.pend # <<>>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Complete ==
  /\ \E o \in (LET R == {x \in DOMAIN z.obj : Ready(z, x)} IN IF Gen /\ R # {} THEN {MinOf(R)} ELSE R) :
     \E v \in (IF z.obj[o].k \in {"get", "fget"} THEN LET I == {x \in z.stores[z.obj[o].x].items : Matches(z.obj[o], x)} IN IF Gen /\ I # {} THEN {MinOf(I)} ELSE I ELSE {-1}) :
       /\ Ready(z, o)
       /\ z.obj[o].k = "fget" => Matches(z.obj[o], v)
       /\ z.obj[o].k \in {"get", "fget", "put", "cget", "hold"} =>           \* requests are served in order
            \A p \in 1..(o - 1) : ~(z.obj[p].k = z.obj[o].k /\ z.obj[p].st = "wait" /\ z.obj[p].x = z.obj[o].x /\ Ready(z, p))
       /\ Step1([op |-> "done", o |-> o, val |-> v])
  /\ UNCHANGED code

Ops ==
  CASE Which \in {"store", "filter"} -> {[s |-> "intr", net |-> n] : n \in Nets} \cup {[s |-> "xput", r |-> 1]}
    [] Which = "cont" -> {[s |-> "intr", net |-> n] : n \in Nets} \cup {[s |-> "xcput", r |-> 1, v |-> 1]}
    [] Which = "hold" -> {[s |-> "intr", net |-> n] : n \in Nets}
    [] Which = "event" -> {[s |-> "intr", net |-> n] : n \in Nets} \cup {[s |-> "succ", e |-> 1]}
    [] Which = "intr" -> {[s |-> "intr", net |-> 1], [s |-> "succ", e |-> 1]}
    [] Which = "rout" -> {[s |-> "intr", net |-> 1], [s |-> "xput", r |-> 1]}
    [] Which = "queue" -> {[s |-> "setq", net |-> 1, list |-> <<"T2">>], [s |-> "setq", net |-> 1, list |-> <<"T3", "T2">>], [s |-> "clearq", net |-> 1], [s |-> "intr", net |-> 1]}
    [] Which = "nucleus" -> {[s |-> "setw", actor |-> 1, st |-> x] : x \in {"w1", "w2"}} \cup {[s |-> "nucadd", net |-> n, sts |-> <<"w1">>, obj |-> FALSE] : n \in Nets}
                            \cup {[s |-> "nucrm", net |-> n, obj |-> FALSE] : n \in Nets} \cup {[s |-> "intr", net |-> 1]}
    [] OTHER -> {}

Outside ==
  /\ left > 0
  /\ Gen => fresh \/ Quiet(z) = ""
  /\ \E o \in Ops :
       /\ CASE o.s = "intr" -> /\ z.nets[o.net].mode \in {"run", "wait", "again", "clean", "crun", "cwait"}
                               /\ Step1([op |-> "intrn", net |-> o.net, cause |-> "c" \o ToString(left), exc |-> ""])
            [] o.s = "xput" -> /\ Cardinality(z.stores[1].items) < z.stores[1].cap
                               /\ ~\E p \in DOMAIN z.obj : z.obj[p].k = "put" /\ z.obj[p].st = "wait"
                               /\ Step1([op |-> "xput", r |-> 1, v |-> 50 + left])
            [] o.s = "xcput" -> Step1([op |-> "xcput", r |-> 1, v |-> o.v])
            [] o.s = "succ" -> Step1([op |-> "succ", o |-> o.e, pay |-> left, exc |-> IF z.obj[o.e].trig \/ z.obj[o.e].st = "done" THEN "SimulationError" ELSE ""])
            [] o.s = "setq" -> /\ ~Deciding(1) /\ Step1([op |-> "setq", net |-> 1, list |-> o.list, exc |-> IF z.nets[1].q = <<>> THEN "" ELSE "SimulationError"])
            [] o.s = "clearq" -> ~Deciding(1) /\ Step1([op |-> "clearq", net |-> 1])
            [] o.s = "setw" -> Step1([op |-> "setw", actor |-> 1, st |-> o.st, cause |-> "nuc:" \o o.st \o ToString(left), exc |-> ""])
            [] o.s = "nucadd" -> Step1([op |-> "nucadd", actor |-> 1, net |-> o.net, sts |-> o.sts])
            [] o.s = "nucrm" -> (\E w \in z.watch : w[3] = o.net) /\ Step1([op |-> "nucrm", net |-> o.net, exc |-> ""])
       /\ hist' = Append(hist, [at |-> z.now, after |-> Quiet(z) = "", o |-> o])
  /\ left' = left - 1
  /\ UNCHANGED <<code, pi, fresh>>

TickMC == /\ Quiet(z) = "" /\ z.now < H
          /\ ~(\E n \in Nets : Deciding(n))
          /\ Step1([op |-> "tick", to |-> z.now + 1])
          /\ fresh' = Gen
          /\ UNCHANGED <<code, pi, hist, left>>

MCNext ==
  /\ ~Dead(z) /\ z.err = ""
  /\ \/ /\ \/ \E n \in (IF Gen THEN LET C == {x \in Nets : Can(x)} IN IF C = {} \/ (\E o \in DOMAIN z.obj : Ready(z, o)) THEN {} ELSE {MinOf(C)} ELSE Nets) : Internal(n) /\ (Deciding(n) => z'.nets[n].mode = "next")
           \/ Complete
        /\ fresh' = FALSE
        /\ UNCHANGED <<pi, hist, left>>
     \/ Outside
     \/ TickMC
MCSpec == MCInit /\ [][MCNext]_<<z, code, pi, hist, left, fresh>>
MCView == IF Gen THEN <<pi, z, code, hist, fresh>> ELSE <<pi, z, code, left>>

---------------------------------------------------------------------------
(* the properties, on the model *)
Sum(f, S) == LET RECURSIVE G(_) G(x) == IF x = {} THEN 0 ELSE LET y == CHOOSE y \in x : TRUE IN f[y] + G(x \ {y}) IN G(S)
Idx(P(_)) == {o \in DOMAIN z.obj : P(z.obj[o])}
DoneOf(kinds) == {o \in DOMAIN z.obj : z.obj[o].k \in kinds /\ z.obj[o].st = "done"}
NoErr == z.err = ""
(* every item ever put is in the store, possibly accepted from an abandoned put, or received exactly once *)
Received == {z.obj[o].val : o \in DoneOf({"get", "fget"})}
Items == /\ Cardinality(Received) = Cardinality(DoneOf({"get", "fget"}))
         /\ Received \cap z.stores[1].items = {}
         /\ Rng(z.cfg.stores[1].items) \cup {z.obj[o].v : o \in DoneOf({"put"})} \subseteq Received \cup z.stores[1].items
         /\ Received \cup z.stores[1].items \subseteq Rng(z.cfg.stores[1].items) \cup {z.obj[o].v : o \in DOMAIN z.obj} \cup 50..(50 + K)
XAmount == Cardinality({i \in DOMAIN hist : hist[i].o.s = "xcput"})
Amounts == z.conts[1].level >= 0 /\ (Gen => z.conts[1].level = z.cfg.conts[1] + XAmount + Sum([o \in DOMAIN z.obj |-> z.obj[o].v], {o \in DOMAIN z.obj : z.obj[o].k = "cput"}) - Sum([o \in DOMAIN z.obj |-> z.obj[o].v], DoneOf({"cget"})))
Units == /\ Cardinality(z.ress[1]) <= z.cfg.ress[1]
         /\ z.ress[1] = DoneOf({"hold"}) \ {z.obj[o].v : o \in {x \in DOMAIN z.obj : z.obj[x].k = "rel"}}
(* nothing an ended task awaited can resume it: the awaited object is pending, and a resumable task'z object is complete *)
Awaits == \A n \in Nets : LET t == z.nets[n] IN
            /\ (t.mode \in {"wait", "cwait"}) = (t.aw # 0)
            /\ t.aw # 0 => /\ z.obj[t.aw].st \in {"wait", "done"}
                           /\ z.obj[t.aw].st = "done" => t.rdy
                           /\ t.rdy => z.obj[t.aw].st = "done" \/ z.obj[t.aw].k = "evt"      \* another task may have armed the event again
(* ending or restarting a task stops exactly what it activated *)
BreakStep == \A n \in Nets :
  (z.nets[n].mode = "wait" /\ z'.nets[n].mode \in {"next", "again", "clean"}) =>
    \A a \in DOMAIN z.acts : \A i \in 1..2 :
      LET l == z.acts[a].lin[i] IN
      IF l.on /\ l.net = n /\ l.inst = z.nets[n].inst THEN ~z'.acts[a].lin[i].on /\ z'.acts[a].lin[i].v = LinNow(z, a, i) ELSE z'.acts[a].lin[i] = l
BreakOk == [][BreakStep]_<<z, code, pi, hist, left, fresh>>
(* an interrupt is delivered in its instant *)
Delivered == Quiet(z) = "" => \A n \in Nets : SureFirst(z.nets[n].pend) = 0
Inv == NoErr /\ Items /\ Amounts /\ Units /\ Awaits /\ Delivered

(* programs for the real code *)
RECURSIVE SchedOf(_, _)
SchedOf(h, now) ==
  IF h = <<>> THEN <<[dt |-> H + 1 - now, ops |-> <<>>]>>
  ELSE <<[dt |-> h[1].at - now, after |-> h[1].after, ops |-> <<h[1].o>>]>> \o SchedOf(Tail(h), h[1].at)
Start0 == [dt |-> 0, ops |-> NucOps(pi) \o [n \in DOMAIN pi.cfg.nets |-> [s |-> "loop", net |-> n, n |-> IF pi.cfg.nets[n].q # <<>> THEN pi.cfg.nets[n].q[1] ELSE "T" \o ToString(n)]]]
PrintProg == (Gen /\ left = 0 /\ hist # <<>> /\ hist[Len(hist)].at = z.now) =>
               PrintT("PROGRAM " \o ToJson([cfg |-> pi.cfg, tasks |-> pi.tasks, filter |-> Which = "filter", nuc |-> Which = "nucleus", sched |-> <<Start0>> \o SchedOf(hist, 0)]))
=============================================================================

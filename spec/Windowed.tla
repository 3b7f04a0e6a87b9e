------------------------------ MODULE Windowed ------------------------------
(* A task that repeatedly yields a windowed get over a (filter) store.      *)
(*  win: loose  items whose order is open (given back on a restart)         *)
(*       taken  items taken in order of arrival     amb  arrivals in the    *)
(*       very instant at which the window closes: in or out                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
R(q) == {q[i] : i \in DOMAIN q}
NoWin == [on |-> FALSE, loose |-> {}, taken |-> <<>>, amb |-> <<>>, open |-> FALSE, close |-> 0, fresh |-> FALSE]
WindowedInit(cfg) == [now |-> 0, cfg |-> cfg, store |-> cfg.init, pool |-> {}, win |-> NoWin, mode |-> "off", pend |-> 0, maybe |-> 0, got |-> {}, err |-> "", kf |-> ""]
   \* store: items not taken, in order; pool: items not taken whose order is open

Match(s, it) == s.cfg.par = -1 \/ it % 2 = s.cfg.par
(* one item arrives while the getter waits *)
Arrive(s, it) ==
  LET w == s.win IN
  IF ~w.on \/ ~Match(s, it) THEN [s EXCEPT !.store = Append(@, it)]
  ELSE IF w.open /\ s.now >= w.close THEN [s EXCEPT !.win.amb = Append(@, it)]
  ELSE IF w.fresh THEN [s EXCEPT !.win.loose = @ \cup {it}, !.win.open = TRUE, !.win.close = IF ~w.open \/ s.cfg.reset THEN s.now + s.cfg.t ELSE @]
  ELSE [s EXCEPT !.win.taken = Append(@, it), !.win.open = TRUE, !.win.close = IF ~w.open \/ s.cfg.reset THEN s.now + s.cfg.t ELSE @]

(* the getter starts: what is there is taken at once; a zero window may close before the second item *)
Begin(s) ==
  LET here == SelectSeq(s.store, LAMBDA x : Match(s, x))
      rest == SelectSeq(s.store, LAMBDA x : ~Match(s, x))
      loose == {x \in s.pool : Match(s, x)}
      any == here # <<>> \/ loose # {}
      zero == s.cfg.t = 0
      n == IF zero /\ loose = {} /\ here # <<>> THEN 1 ELSE Len(here)
  IN [s EXCEPT !.store = rest, !.pool = @ \ loose,
               !.win = [on |-> TRUE, loose |-> IF loose # {} THEN loose \cup R(here) ELSE {}, taken |-> IF loose # {} THEN <<>> ELSE SubSeq(here, 1, n),
                        amb |-> IF loose # {} THEN <<>> ELSE SubSeq(here, n + 1, Len(here)), open |-> any, close |-> s.now + s.cfg.t, fresh |-> loose # {}],
               !.mode = "win"]

GiveBack(s) == [s EXCEPT !.pool = @ \cup s.win.loose \cup R(s.win.taken) \cup R(s.win.amb) \cup R(s.store), !.store = <<>>, !.win = NoWin]

Result(s, e) ==
  LET w == s.win
      n == Cardinality(w.loose)
      k == Len(w.taken)
      l == e.list
      extra == Len(l) - n - k
      zl == s.cfg.t = 0 /\ w.fresh      \* a zero window over items of unknown order: any non-empty part
  IN CASE ~w.on -> Fail(s, "a windowed get returned that is not running")
       [] ~w.open \/ w.close # s.now -> Fail(s, "a windowed get returned at the wrong time")
       [] zl -> IF l = <<>> \/ ~(R(l) \subseteq w.loose \cup R(w.amb)) \/ Cardinality(R(l)) # Len(l) THEN Fail(s, "a windowed get returned the wrong items")
                ELSE [s EXCEPT !.win = NoWin, !.mode = "run", !.pend = 0, !.maybe = 0, !.got = @ \cup R(l), !.pool = @ \cup ((w.loose \cup R(w.amb)) \ R(l))]
       [] extra < 0 \/ extra > Len(w.amb) -> Fail(s, "a windowed get lost or added items")
       [] R(SubSeq(l, 1, n)) # w.loose \/ SubSeq(l, n + 1, n + k) # w.taken \/ SubSeq(l, n + k + 1, Len(l)) # SubSeq(w.amb, 1, extra)
            -> Fail(s, "a windowed get returned the wrong items or the wrong order")
       [] s.cfg.reset /\ s.cfg.t > 0 /\ extra > 0 -> Fail(s, "a window closed although its latest arrival had reset it")
       [] OTHER -> [s EXCEPT !.win = NoWin, !.mode = "run", !.pend = 0, !.maybe = 0, !.got = @ \cup R(l), !.pool = @ \cup R(SubSeq(w.amb, extra + 1, Len(w.amb)))]    \* their order is open: one may have been granted and given back

Intr(s, e) ==
  CASE s.mode # "win" -> Fail(s, "an interrupt was delivered to a task that is not in its windowed get")
    [] s.pend + s.maybe = 0 -> Fail(s, "on_interrupt was called without an interrupt")
    [] e.act = "IGNORE" -> IF s.pend > 0 THEN [s EXCEPT !.pend = @ - 1] ELSE [s EXCEPT !.maybe = @ - 1]
    [] OTHER -> [GiveBack(s) EXCEPT !.mode = IF e.act = "END" THEN "next" ELSE "again", !.pend = 0,
                                        \* interrupts may go unnoticed during the clean-up, or reach the restarted task
                                        !.maybe = IF e.act = "END" THEN 0 ELSE s.maybe + s.pend]

Settled(s) ==
  CASE s.mode \in {"next", "again", "run"} -> "a task did not go on in its instant"
    [] s.pend # 0 /\ s.mode = "win" -> "an interrupt was not delivered in its instant"
    [] s.win.on /\ s.win.open /\ s.now >= s.win.close /\ ~(s.cfg.reset /\ s.win.amb # <<>>) -> "a window did not close in its instant"
    [] OTHER -> ""
(* arrivals in the closing instant that reset the window were taken *)
Extend(s) ==
  LET w == s.win IN
  IF w.on /\ w.amb # <<>> /\ s.cfg.reset /\ s.cfg.t > 0 THEN [s EXCEPT !.win.taken = @ \o w.amb, !.win.amb = <<>>, !.win.close = s.now + s.cfg.t] ELSE s

Held(s) == s.win.loose \cup R(s.win.taken) \cup R(s.win.amb)
Snap(s, e) ==
  LET x == Extend(s) IN
  CASE Settled(s) # "" -> Fail(s, Settled(s))
    [] Cardinality(R(e.items)) # Len(e.items) -> Fail(s, "an item is in the store twice")
    [] R(e.items) # x.pool \cup R(x.store) \cup R(x.win.amb) -> Fail(s, "the store does not hold exactly the items that were not taken")
    [] OTHER -> [x EXCEPT !.store = e.items, !.pool = {}]

WindowedStep(s, e) ==
  IF e.t # s.now /\ e.op # "tick" THEN Fail(s, "something happened at the wrong time") ELSE
  CASE e.op = "put" -> Arrive(s, e.v)
    [] e.op = "begin" -> IF ~(s.mode \in {"off", "next", "again", "run", "idle"}) THEN Fail(s, "a windowed get began at the wrong time") ELSE Begin(s)
    [] e.op = "result" -> Result(s, e)
    [] e.op = "idle" -> [s EXCEPT !.mode = "idle"]
    [] e.op = "end" -> [s EXCEPT !.mode = "next", !.maybe = 0]
    [] e.op = "intrn" -> IF s.mode = "win" THEN [s EXCEPT !.pend = @ + 1] ELSE [s EXCEPT !.maybe = @ + 1]
    [] e.op = "intr" -> Intr(s, e)
    [] e.op = "snap" -> Snap(s, e)
    [] e.op = "tick" -> IF Settled(s) # "" THEN Fail(s, Settled(s))
                        ELSE IF s.win.on /\ Extend(s).win.open /\ Extend(s).win.close < e.to THEN Fail(s, "time went past the end of a window")
                        ELSE [Extend(s) EXCEPT !.now = e.to, !.maybe = 0, !.win.fresh = FALSE]
    [] e.op = "crash" -> Fail(s, "the simulation failed: " \o e.exc)
    [] OTHER -> Fail(s, "unknown event")
=============================================================================

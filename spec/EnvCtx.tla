------------------------------- MODULE EnvCtx -------------------------------
(* Environment contexts.  Threads (separate Python contexts) interleave; each *)
(* has a stack of entered contexts, and everything done in a thread sees the  *)
(* innermost one of that thread only.  A context owns a clock with timers, a  *)
(* random source, write-once stage variables and the registries of entities,  *)
(* actors, monitored resources and recorded data, in order of creation.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
(* cls: per class [kind, name, groups (own), skip, add, anc (indices of all ancestors and itself)] *)
OwnGroups(c) == IF ~c.add THEN {} ELSE {c.groups[i] : i \in DOMAIN c.groups} \cup (IF c.skip THEN {} ELSE {c.name})
GroupsOf(cls, i) == IF ~cls[i].add THEN {} ELSE UNION {OwnGroups(cls[cls[i].anc[j]]) : j \in DOMAIN cls[i].anc}

Ctx(e) == [now |-> e.t0, vars |-> [n \in {} |-> 0], ents |-> <<>>, recs |-> <<>>, gen |-> e.gen, timers |-> <<>>, fired |-> <<>>]
EnvCtxInit(cfg) == [cls |-> cfg.cls, rng |-> cfg.rng, used |-> [g \in DOMAIN cfg.rng |-> 0], names |-> cfg.names,
                    st |-> [i \in 1..cfg.threads |-> <<>>], err |-> "", kf |-> ""]
Top(s, th) == s.st[th][Len(s.st[th])]
SetTop(s, th, c) == [s EXCEPT !.st[th][Len(s.st[th])] = c]
In(s, th) == s.st[th] # <<>>

RECURSIVE Fire(_, _, _)            \* timers due by t, earliest first, in order of creation at equal times
Fire(tm, fired, t) ==
  LET D == {i \in DOMAIN tm : tm[i].at <= t} IN
  IF D = {} THEN <<tm, fired>>
  ELSE LET i == CHOOSE i \in D : \A j \in D : tm[i].at < tm[j].at \/ (tm[i].at = tm[j].at /\ i <= j)
       IN Fire(SubSeq(tm, 1, i - 1) \o SubSeq(tm, i + 1, Len(tm)), Append(fired, <<tm[i].id, tm[i].at>>), t)

Out(e, ok, okexc) == IF e.exc \in okexc THEN "" ELSE IF e.exc = "" THEN " should have been refused" ELSE " raised the wrong error: " \o e.exc
NoCtx == {"UpstageError", "ValueError", "LookupError"}

Op(s, e) ==
  LET th == e.th
      c == Top(s, th) IN
  CASE e.op = "init" -> s
    [] e.op = "enter" -> IF Err(e) THEN Fail(s, "entering a context failed") ELSE [s EXCEPT !.st[th] = Append(@, Ctx(e))]
    [] e.op = "exit" -> IF Err(e) THEN Fail(s, "leaving a context failed") ELSE [s EXCEPT !.st[th] = SubSeq(@, 1, Len(@) - 1)]
    [] ~In(s, th) -> IF e.exc \in NoCtx THEN s ELSE Fail(s, e.op \o " outside any context" \o Out(e, FALSE, NoCtx))
    [] e.op = "addvar" ->
         IF e.n \in DOMAIN c.vars \cup {"random"} THEN (IF e.exc \in {"UpstageError", "AttributeError"} THEN s ELSE Fail(s, "setting a stage variable again" \o Out(e, FALSE, {})))
         ELSE IF Err(e) THEN Fail(s, "setting a stage variable failed: " \o e.exc)
         ELSE SetTop(s, th, [c EXCEPT !.vars = (e.n :> e.v) @@ @])
    [] e.op = "getvar" ->
         IF e.n \in DOMAIN c.vars THEN (IF Err(e) \/ e.v # c.vars[e.n] THEN Fail(s, "a stage variable reads wrongly") ELSE s)
         ELSE IF e.exc \in {"UpstageError", "AttributeError"} THEN s ELSE Fail(s, "reading a stage variable that was never set" \o Out(e, FALSE, {}))
    [] e.op = "make" -> IF Err(e) THEN Fail(s, "making an entity failed: " \o e.exc) ELSE SetTop(s, th, [c EXCEPT !.ents = Append(@, [id |-> e.id, c |-> e.c])])
    [] e.op = "record" -> IF Err(e) THEN Fail(s, "recording data failed") ELSE SetTop(s, th, [c EXCEPT !.recs = Append(@, <<c.now, e.v>>)])
    [] e.op = "timer" -> IF Err(e) THEN Fail(s, "starting a wait failed") ELSE SetTop(s, th, [c EXCEPT !.timers = Append(@, [id |-> e.id, at |-> c.now + e.d])])
    [] e.op = "run" ->     \* simpy stops before the events of the very moment it is told to stop at, unless they are due earlier
         LET r == Fire(c.timers, c.fired, c.now + e.d) IN
         IF Err(e) THEN Fail(s, "running failed: " \o e.exc) ELSE SetTop(s, th, [c EXCEPT !.now = @ + e.d, !.timers = r[1], !.fired = r[2]])
    [] e.op = "draw" ->
         IF Err(e) THEN Fail(s, "drawing a random number failed")
         ELSE IF c.gen = "" THEN s
         ELSE IF e.v # s.rng[c.gen][s.used[c.gen] + 1] THEN Fail(s, "a random number is not the next of the context's own source")
         ELSE [s EXCEPT !.used[c.gen] = @ + 1]
    [] OTHER -> Fail(s, "unknown operation " \o e.op)

Ids(ents) == [i \in DOMAIN ents |-> ents[i].id]
(* what each thread sees after every operation; e.see[th] *)
Wrong(X, v, th) ==
  IF ~In(X, th) THEN (IF v.in THEN "a clock, stage or registry is still there outside any context" ELSE "")
  ELSE
  LET c == Top(X, th)
      Sel(P(_)) == Ids(SelectSeq(c.ents, P))
      Kind(x) == X.cls[x.c].kind IN
  IF ~v.in THEN "a context is lost"
  ELSE IF v.now # c.now THEN "the clock is wrong"
  ELSE IF \E n \in {X.names[i] : i \in DOMAIN X.names} : v.vars[n] # (IF n \in DOMAIN c.vars THEN c.vars[n] ELSE -1) THEN "a stage variable is wrong"
  ELSE IF v.actors # Sel(LAMBDA x : Kind(x) = "actor") THEN "the list of actors is wrong"
  ELSE IF v.monitored # Sel(LAMBDA x : Kind(x) = "monitor") THEN "the list of monitored resources is wrong"
  ELSE IF v.recs # c.recs THEN "the recorded data is wrong"
  ELSE IF \E g \in DOMAIN v.groups : v.groups[g] # Sel(LAMBDA x : g \in GroupsOf(X.cls, x.c)) THEN "an entity group is wrong"
  ELSE IF {v.all[i] : i \in DOMAIN v.all} # UNION {GroupsOf(X.cls, c.ents[i].c) : i \in DOMAIN c.ents} THEN "the names of entity groups are wrong"
  ELSE IF v.fired # c.fired THEN "a wait of this context ended wrongly"
  ELSE ""
EnvCtxStep(s, e) ==
  LET X == Op(s, e) IN
  IF X.err # "" THEN X
  ELSE LET B == {th \in DOMAIN X.st : Wrong(X, e.see[th], th) # ""} IN
       IF B = {} THEN X
       ELSE LET th == CHOOSE th \in B : TRUE IN
            Fail(X, Wrong(X, e.see[th], th) \o (IF th = e.th THEN " after " ELSE " in another thread after ") \o e.op)
=============================================================================

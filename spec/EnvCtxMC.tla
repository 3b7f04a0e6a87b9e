------------------------------ MODULE EnvCtxMC ------------------------------
EXTENDS EnvCtx, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
Cls == <<[kind |-> "actor", name |-> "K0", groups |-> <<"g">>, skip |-> FALSE, add |-> TRUE, anc |-> <<1>>],
         [kind |-> "actor", name |-> "K1", groups |-> <<>>, skip |-> FALSE, add |-> TRUE, anc |-> <<2, 1>>],
         [kind |-> "monitor", name |-> "K2", groups |-> <<"g">>, skip |-> TRUE, add |-> TRUE, anc |-> <<3>>]>>
N == Len(hist) + 1
Ops == UNION {
   {[op |-> "enter", th |-> th, t0 |-> t, how |-> "gen", gen |-> g] : t \in {0, 4}, g \in {"s1", "s2"}}
   \cup {[op |-> "exit", th |-> th, err |-> b] : b \in BOOLEAN}
   \cup {[op |-> "addvar", th |-> th, n |-> n, v |-> N] : n \in {"alpha", "items"}}
   \cup {[op |-> "getvar", th |-> th, n |-> "alpha", attr |-> FALSE]}
   \cup {[op |-> "make", th |-> th, c |-> c, id |-> N] : c \in {2, 3}}
   \cup {[op |-> "record", th |-> th, v |-> N], [op |-> "timer", th |-> th, id |-> N, d |-> 3], [op |-> "run", th |-> th, d |-> 2], [op |-> "draw", th |-> th, how |-> "direct"]}
   : th \in 1..2}
Can(o) == IF o.op = "enter" THEN Len(s.st[o.th]) < 2 ELSE In(s, o.th)
Do(o) ==
  LET c == Top(s, o.th) IN
  CASE o.op = "enter" -> [s EXCEPT !.st[o.th] = Append(@, Ctx(o))]
    [] o.op = "exit" -> [s EXCEPT !.st[o.th] = SubSeq(@, 1, Len(@) - 1)]
    [] o.op = "addvar" -> IF o.n \in DOMAIN c.vars THEN s ELSE SetTop(s, o.th, [c EXCEPT !.vars = (o.n :> o.v) @@ @])
    [] o.op = "getvar" -> s
    [] o.op = "make" -> SetTop(s, o.th, [c EXCEPT !.ents = Append(@, [id |-> o.id, c |-> o.c])])
    [] o.op = "record" -> SetTop(s, o.th, [c EXCEPT !.recs = Append(@, <<c.now, o.v>>)])
    [] o.op = "timer" -> SetTop(s, o.th, [c EXCEPT !.timers = Append(@, [id |-> o.id, at |-> c.now + o.d])])
    [] o.op = "run" -> LET r == Fire(c.timers, c.fired, c.now + o.d) IN SetTop(s, o.th, [c EXCEPT !.now = @ + o.d, !.timers = r[1], !.fired = r[2]])
    [] o.op = "draw" -> [s EXCEPT !.used[c.gen] = @ + 1]
MCInit == s = EnvCtxInit([cls |-> Cls, rng |-> [g \in {"s1", "s2"} |-> <<0>>], names |-> <<"alpha", "items">>, threads |-> 2]) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Can(o) /\ s' = Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
(* nothing done in a context is visible in any other, before or after, and variables keep their values *)
Others == [][LET o == hist'[Len(hist')] IN
              /\ \A th \in 1..2 \ {o.th} : s'.st[th] = s.st[th]
              /\ \A i \in 1..(IF o.op \in {"enter", "exit"} THEN (IF Len(s.st[o.th]) < Len(s'.st[o.th]) THEN Len(s.st[o.th]) ELSE Len(s'.st[o.th])) ELSE Len(s.st[o.th]) - 1) : s'.st[o.th][i] = s.st[o.th][i]
              /\ (~(o.op \in {"enter", "exit"})) => \A n \in DOMAIN Top(s, o.th).vars : Top(s', o.th).vars[n] = Top(s, o.th).vars[n]
              /\ o.op = "enter" => /\ Top(s', o.th).ents = <<>> /\ DOMAIN Top(s', o.th).vars = {} /\ Top(s', o.th).now = o.t0]_<<s, hist>>
Inv == \A th \in 1..2 : \A i \in DOMAIN s.st[th] :
         LET c == s.st[th][i] IN
         /\ \A j \in DOMAIN c.fired : c.fired[j][2] <= c.now
         /\ \A j \in DOMAIN c.timers : c.timers[j].at > c.now
         /\ \A j, k \in DOMAIN c.ents : j < k => c.ents[j].id < c.ents[k].id
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([ops |-> hist]))
=============================================================================

------------------------------ MODULE ReproMC -------------------------------
(* A model with a random source, networks that watch a state, and a global    *)
(* source that anybody uses, run again and again with two seeds.  An          *)
(* implementation may tell the networks of a change in any order, as long as  *)
(* it is always the same one: the order is chosen once.                       *)
EXTENDS Repro, Json
CONSTANTS Depth, Gen, Runs
VARIABLES s, prog, pc, runs, global, watch, out, outs, order, earlier
vars == <<s, prog, pc, runs, global, watch, out, outs, order, earlier>>
Kinds == {"wait", "own", "noise", "watch1", "watch2", "unwatch1", "change", "both"}
Nets == {1, 2}
Progs == UNION {[1..n -> Kinds] : n \in 1..Depth}
Stream(k, i) == (7 * k + 3 * i * i) % 11
Conf == [stream |-> [k \in {1, 2} |-> [i \in 1..(Depth + 1) |-> Stream(k, i)]]]
Orders == {<<1, 2>>, <<2, 1>>}
MCInit == /\ s = ReproInit(Conf) /\ prog \in Progs /\ pc = 0 /\ runs = 0 /\ global = 0 /\ watch = {} /\ out = <<>>
          /\ outs = [k \in {1, 2} |-> {}] /\ order \in Orders /\ earlier = 0
Say(x) == <<ToString(x)>>
Told == SelectSeq(order, LAMBDA n : n \in watch)
Txt(o) == CASE o = "change" -> [i \in 1..Len(Told) |-> ToString(Told[i])]
            [] o = "both" -> Say(Cardinality(watch) + s.run.pos)
            [] o \in {"wait", "own"} -> Say(Stream(s.run.k, s.run.pos + 1))
            [] OTHER -> <<>>
Do(o) ==
  LET a == IF o \in {"wait", "own"} THEN ReproStep(s, [op |-> o, v |-> Stream(s.run.k, s.run.pos + 1), glob |-> FALSE]) ELSE s
      b == ReproStep(a, [op |-> "lines", txts |-> Txt(o)])
  IN s' = b /\ out' = out \o Txt(o)
Go == /\ ~s.run.on /\ runs < Runs
      /\ \E k \in {1, 2} : s' = ReproStep(s, [op |-> "begin", k |-> k])
      /\ runs' = runs + 1 /\ pc' = 1 /\ out' = <<>> /\ watch' = {} /\ UNCHANGED <<prog, global, outs, order, earlier>>
Op == /\ s.run.on /\ pc <= Len(prog)
      /\ Do(prog[pc]) /\ pc' = pc + 1
      /\ global' = IF prog[pc] = "noise" THEN 1 - global ELSE global
      /\ watch' = CASE prog[pc] = "watch1" -> watch \cup {1} [] prog[pc] = "watch2" -> watch \cup {2} [] prog[pc] = "unwatch1" -> watch \ {1} [] OTHER -> watch
      /\ UNCHANGED <<prog, runs, outs, order, earlier>>
Fin == /\ s.run.on /\ pc > Len(prog)
       /\ s' = ReproStep(s, [op |-> "end"]) /\ outs' = [outs EXCEPT ![s.run.k] = @ \cup {out}] /\ UNCHANGED <<prog, pc, runs, global, watch, out, order, earlier>>
Other == ~s.run.on /\ earlier = 0 /\ earlier' = 1 /\ global' = 1 - global /\ UNCHANGED <<s, prog, pc, runs, watch, out, outs, order>>
MCNext == Go \/ Op \/ Fin \/ Other
MCSpec == MCInit /\ [][MCNext]_vars
NoErr == s.err = ""
(* what a run gives is a function of the seed *)
Same == \A k \in {1, 2} : Cardinality(outs[k]) <= 1
(* the context's source starts afresh in every run and only draws advance it *)
Fresh == s.run.on => s.run.pos = Cardinality({i \in 1..(pc - 1) : prog[i] \in {"wait", "own"}})
Blind == [][global' # global => s' = s \/ s.run.pos = s'.run.pos]_vars
PrintProg == (Gen /\ pc = 0 /\ runs = 0 /\ earlier = 0 /\ order = <<1, 2>> /\ Len(prog) = Depth) => PrintT("PROGRAM " \o ToJson([ops |-> prog]))
=============================================================================

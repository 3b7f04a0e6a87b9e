------------------------------- MODULE Repro --------------------------------
(* Runs of one model, in several processes.  A model reads its context's      *)
(* random source; what it does otherwise (lines) is for the first run of each *)
(* seed to say and for every later run of that seed to repeat.                *)
(* stream[k] is the sequence of numbers that seed k gives, in 2^-20.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Off == [on |-> FALSE, k |-> 1, pos |-> 0, n |-> 0]
ReproInit(cfg) == [err |-> "", kf |-> "", stream |-> cfg.stream, run |-> Off,
                   done |-> [k \in DOMAIN cfg.stream |-> FALSE], ref |-> [k \in DOMAIN cfg.stream |-> <<>>]]

Begin(s, e) == IF s.run.on THEN Fail(s, "driver error: runs overlap") ELSE [s EXCEPT !.run = [on |-> TRUE, k |-> e.k, pos |-> 0, n |-> 0]]

(* one number taken from the context's source: by a random wait, or by the model itself *)
Draw(s, e) ==
  LET p == s.run.pos + 1
      v == s.stream[s.run.k][p]
  IN IF e.glob THEN Fail(s, "a random wait draws from the global random source")
     ELSE IF e.v < v - 1 \/ e.v > v + 1 THEN Fail(s, "a number is not the next one of the context's random source")
     ELSE [s EXCEPT !.run.pos = p]
(* noise: somebody draws from the global source; nothing follows from it *)
Noise(s, e) == s

RECURSIVE Cmp(_, _, _)
Cmp(s, txts, i) ==      \* number of the first of the lines that differs, 0 if none does
  IF i > Len(txts) THEN 0
  ELSE IF s.run.n + i > Len(s.ref[s.run.k]) \/ s.ref[s.run.k][s.run.n + i] # txts[i] THEN i ELSE Cmp(s, txts, i + 1)
Lines(s, e) ==
  LET k == s.run.k
      i == IF s.done[k] THEN Cmp(s, e.txts, 1) ELSE 0
  IN IF i > 0 THEN Fail(s, "a run with the same seed goes differently: " \o e.txts[i] \o " instead of " \o
                        (IF s.run.n + i > Len(s.ref[k]) THEN "the end" ELSE s.ref[k][s.run.n + i]))
     ELSE [s EXCEPT !.run.n = @ + Len(e.txts), !.ref[k] = IF s.done[k] THEN @ ELSE @ \o e.txts]
End(s, e) ==
  LET k == s.run.k IN
  IF s.run.n # Len(s.ref[k]) THEN Fail(s, "a run with the same seed ends early")
  ELSE [s EXCEPT !.run = Off, !.done[k] = TRUE]

ReproStep(s, e) ==
  CASE e.op = "begin" -> Begin(s, e)
    [] e.op = "wait" -> Draw(s, e)
    [] e.op = "own" -> Draw(s, e)
    [] e.op = "noise" -> Noise(s, e)
    [] e.op = "lines" -> Lines(s, e)
    [] e.op = "end" -> End(s, e)
    [] OTHER -> Fail(s, "unknown operation " \o e.op)
=============================================================================

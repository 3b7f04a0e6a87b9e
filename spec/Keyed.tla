------------------------------- MODULE Keyed --------------------------------
(* Dictionary and dataclass states: a mapping in insertion order, reached     *)
(* through any proxy taken at any time; every change made through a proxy is  *)
(* recorded in the key's own history and shown to the recording functions.    *)
(* A value is [ty, x]: its type and a number that is the same for equal       *)
(* values.  Times are in integer units.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
None == [ty |-> "NoneType", x |-> -1000]
Ty(v, T) == T = <<>> \/ \E i \in DOMAIN T : T[i] = v.ty \/ T[i] = "object" \/ (v.ty = "bool" /\ T[i] = "int")

Keys(m) == {m[i].k : i \in DOMAIN m}
At(m, k) == m[CHOOSE i \in DOMAIN m : m[i].k = k].v
Put(m, k, v) == IF k \in Keys(m) THEN [i \in DOMAIN m |-> IF m[i].k = k THEN [k |-> k, v |-> v] ELSE m[i]] ELSE Append(m, [k |-> k, v |-> v])
(* c: per state [kind, rec, dup, types, ft (field types of a dataclass by name), fns] *)
Allowed(c, k, v) == IF c.kind = "dc" THEN Ty(v, c.ft[k]) ELSE Ty(v, c.types)

RECURSIVE Sum(_)
Sum(m) == IF m = <<>> THEN 0 ELSE (IF Head(m).v.ty \in {"int", "float", "bool"} THEN Head(m).v.x ELSE 1) + Sum(Tail(m))
Fun(f, m) == IF f = "sum" THEN Sum(m) ELSE IF f = "len" THEN Len(m) ELSE IF m = <<>> THEN -1 ELSE m[Len(m)].v.x

(* hist: per state a sequence of [k, t, v] in the order recorded; fh: per state per function a sequence of [t, x] *)
Last(h, k) == LET I == {i \in DOMAIN h : h[i].k = k} IN IF I = {} THEN <<>> ELSE <<h[CHOOSE i \in I : \A j \in I : j <= i]>>
Rec1(c, h, k, t, v) ==
  LET l == Last(h, k) IN
  IF ~c.rec THEN h
  ELSE IF l # <<>> /\ ~c.dup /\ l[1].t = t /\ l[1].v.x = v.x THEN h
  ELSE Append(h, [k |-> k, t |-> t, v |-> v])
RECURSIVE RecAll(_, _, _, _)
RecAll(c, h, t, m) == IF m = <<>> THEN h ELSE RecAll(c, Rec1(c, h, Head(m).k, t, Head(m).v), t, Tail(m))
FnRec(c, fh, t, m) ==
  IF ~c.rec THEN fh
  ELSE [j \in DOMAIN fh |->
          LET n == [t |-> t, x |-> Fun(c.fns[j], m)]
              l == fh[j] IN
          IF l # <<>> /\ ~c.dup /\ l[Len(l)] = n THEN l ELSE Append(l, n)]

KeyedInit(cfg) ==
  [c |-> cfg.states, m |-> [i \in DOMAIN cfg.states |-> cfg.states[i].m0], t |-> 0,
   h |-> [i \in DOMAIN cfg.states |-> RecAll(cfg.states[i], <<>>, 0, cfg.states[i].m0)],
   f |-> [i \in DOMAIN cfg.states |-> FnRec(cfg.states[i], [j \in DOMAIN cfg.states[i].fns |-> <<>>], 0, cfg.states[i].m0)],
   err |-> "", kf |-> ""]

Change(s, i, k, v, t) ==
  LET m == Put(s.m[i], k, v) IN
  [s EXCEPT !.m[i] = m, !.h[i] = Rec1(s.c[i], @, k, t, v), !.f[i] = FnRec(s.c[i], @, t, m)]

Missing(c) == IF c.kind = "dc" THEN "AttributeError" ELSE "KeyError"
Wrong(s, e, want, what) == Fail(s, IF e.exc = "" THEN what \o " should have been refused" ELSE IF want = "" THEN what \o " failed: " \o e.exc ELSE what \o " raised the wrong error: " \o e.exc)

Op(s, e) ==
  LET i == e.s
      c == s.c[i]
      m == s.m[i]
      there == e.k \in Keys(m) IN
  CASE e.op \in {"init", "tick"} -> [s EXCEPT !.t = e.t]
    [] e.op = "set" -> LET want == IF Allowed(c, e.k, e.v) THEN "" ELSE "TypeError" IN
                       IF e.exc # want THEN Wrong(s, e, want, "setting a key") ELSE IF Err(e) THEN s ELSE Change(s, i, e.k, e.v, e.t)
    [] e.op = "setdefault" ->
         LET want == IF there \/ Allowed(c, e.k, e.v) THEN "" ELSE "TypeError" IN
         IF e.exc # want THEN Wrong(s, e, want, "setdefault") ELSE IF Err(e) THEN s
         ELSE IF e.r # (IF there THEN At(m, e.k) ELSE e.v) THEN Fail(s, "setdefault returned the wrong value")
         ELSE IF there THEN s ELSE Change(s, i, e.k, e.v, e.t)
    [] e.op = "add" ->                           \* st[k] += d
         LET want == IF ~there THEN Missing(c) ELSE IF Allowed(c, e.k, e.v) THEN "" ELSE "TypeError" IN
         IF e.exc # want THEN Wrong(s, e, want, "adding to a key") ELSE IF Err(e) THEN s ELSE Change(s, i, e.k, e.v, e.t)
    [] e.op = "raw" -> [s EXCEPT !.m[i] = Put(m, e.k, e.v)]      \* through the raw object: not recorded, but seen
    [] e.op = "get" -> LET want == IF there THEN "" ELSE Missing(c) IN
                       IF e.exc # want THEN Wrong(s, e, want, "reading a key")
                       ELSE IF there /\ e.r # At(m, e.k) THEN Fail(s, "reading a key gave the wrong value") ELSE s
    [] e.op = "has" -> IF Err(e) \/ e.b # there THEN Fail(s, "membership is wrong") ELSE s
    [] e.op = "eq" -> IF Err(e) \/ e.b # (e.em = m) THEN Fail(s, "comparing the state gave the wrong answer") ELSE s
    [] e.op = "eqp" -> IF Err(e) \/ e.b # (s.m[e.j] = m) THEN Fail(s, "comparing two states gave the wrong answer") ELSE s
    [] e.op = "replace" -> IF e.exc # "SimulationError" THEN Wrong(s, e, "SimulationError", "replacing the whole state") ELSE s
    [] e.op = "caller" -> s                      \* the caller changes the dictionary it made the actor with
    [] OTHER -> Fail(s, "unknown operation " \o e.op)

(* recorded since the last event: e.h[i] a sequence of [k, t, v], per key in order; e.f[i][j] of [t, x] *)
Of(h, k) == SelectSeq(h, LAMBDA r : r.k = k)
KeyedStep(s, e) ==
  LET X == Op(s, e)
      I == DOMAIN s.c
      NewH(i) == SubSeq(X.h[i], Len(s.h[i]) + 1, Len(X.h[i]))
      First == e.op = "init"
      H(i) == IF First THEN X.h[i] ELSE NewH(i)
      F(i, j) == IF First THEN X.f[i][j] ELSE SubSeq(X.f[i][j], Len(s.f[i][j]) + 1, Len(X.f[i][j])) IN
  IF X.err # "" THEN X
  ELSE IF \E i \in I : e.m[i] # X.m[i] THEN
     Fail(X, IF Err(e) THEN "a refused operation changed the content"
             ELSE IF \E i \in I : i # e.s /\ e.m[i] # X.m[i] THEN "an operation changed another state's content"
             ELSE "the content is wrong after " \o e.op)
  ELSE IF \E i \in I : e.len[i] # Len(X.m[i]) THEN Fail(X, "the length is wrong")
  ELSE IF \E i \in I : \E k \in Keys(X.m[i]) \cup {e.h[i][j].k : j \in DOMAIN e.h[i]} : Of(e.h[i], k) # Of(H(i), k) THEN
     LET i == CHOOSE i \in I : \E k \in Keys(X.m[i]) \cup {e.h[i][j].k : j \in DOMAIN e.h[i]} : Of(e.h[i], k) # Of(H(i), k) IN
     Fail(X, IF ~X.c[i].rec THEN "a state that does not record has a history"
             ELSE IF Err(e) THEN "a refused operation was recorded"
             ELSE IF Len(e.h[i]) > Len(H(i)) THEN "a key's history has an entry too many"
             ELSE IF Len(e.h[i]) < Len(H(i)) THEN "a key's history lacks an entry"
             ELSE "a key's history entry is wrong")
  ELSE IF \E i \in I : \E j \in DOMAIN X.c[i].fns : e.f[i][j] # F(i, j) THEN Fail(X, "the history of a recording function is wrong")
  ELSE X
=============================================================================

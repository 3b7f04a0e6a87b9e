-------------------------------- MODULE Decl --------------------------------
(* Classes of actors with declared states: which constructions and            *)
(* assignments are accepted, and the values that result.                      *)
(* value: [t, k, v, m]  t type, k text or class of resource, v numbers, m parts *)
(* class: [bases (earlier classes), mixin, states]                             *)
(* state: [n, kind, cls, def, dv, frozen, noinit, none, types, recs, dk, dkw]  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Rng(q) == {q[i] : i \in DOMAIN q}
Unset == [t |-> "unset", k |-> "", v |-> <<>>, m |-> <<>>]

(* the types a value of one type also has *)
Supers(t) == CASE t = "bool" -> {"bool", "int"}
               [] t = "sub" -> {"sub", "list"}
               [] t = "SMStore" -> {"SMStore", "Store"}
               [] t = "FilterStore" -> {"FilterStore", "Store"}
               [] t = "SMContainer" -> {"SMContainer", "Container"}
               [] OTHER -> {t}
IsStore(k) == "Store" \in Supers(k)
IsContainer(k) == "Container" \in Supers(k)

(* ------------------------------------------------------------------ classes *)
RECURSIVE Anc(_, _)
Anc(C, i) == {i} \cup UNION {Anc(C, b) : b \in Rng(C[i].bases)}
StatesOf(C, i) == UNION {Rng(C[j].states) : j \in Anc(C, i)}
NamesOf(C, i) == {d.n : d \in StatesOf(C, i)}
(* a state may be declared once along the ancestors *)
Twice(C, i) == \E j, k \in Anc(C, i) : j # k /\ \E d \in Rng(C[j].states) : \E f \in Rng(C[k].states) : d.n = f.n
Decl(C, i, n) == CHOOSE d \in StatesOf(C, i) : d.n = n
HasDefault(d) == CASE d.kind = "res" -> d.dk # ""
                   [] d.kind = "multi" -> FALSE
                   [] OTHER -> d.def # "no" \/ d.none
(* declarations refused by themselves *)
DeclErrs(d) == IF d.kind # "plain" THEN {}
               ELSE (IF d.def = "both" THEN {"UpstageError"} ELSE {}) \cup (IF d.noinit /\ d.def = "no" THEN {"SimulationError"} ELSE {})
OwnErrs(C, i) == UNION {DeclErrs(d) : d \in Rng(C[i].states)}
Inherit(C, i) == IF ~C[i].mixin /\ Twice(C, i) THEN {"ValueError"} ELSE {}
ClassErrs(C, i) == IF OwnErrs(C, i) # {} THEN OwnErrs(C, i) ELSE Inherit(C, i)

(* two names for one history *)
RecNames(C, i) == UNION {{<<d.n, 0>>} \cup {<<d.recs[j], <<d.n, j>>>> : j \in DOMAIN d.recs} : d \in StatesOf(C, i)}
Clash(C, i) == \E d \in StatesOf(C, i) :
                 \/ \E j \in DOMAIN d.recs : d.recs[j] \in NamesOf(C, i)
                 \/ \E j, k \in DOMAIN d.recs : j # k /\ d.recs[j] = d.recs[k]
                 \/ \E f \in StatesOf(C, i) : f.n # d.n /\ Rng(d.recs) \cap Rng(f.recs) # {}

(* ------------------------------------------------------------------ resources *)
(* what is asked for, given the defaults of the state: [k, cap, fill, bad] *)
Ask(d, g) == [k |-> IF g.k = "" THEN d.dk ELSE g.k, cap |-> IF g.v[1] = -1 THEN d.dkw[1] ELSE g.v[1],
              fill |-> IF g.v[2] = -1 THEN d.dkw[2] ELSE g.v[2], bad |-> g.v[3] # 0]
TypeOk(types, k) == types = <<>> \/ Rng(types) \cap Supers(k) # {}
ResTypes(d) == IF d.types = <<>> /\ d.kind = "res" THEN <<"Store", "Container">> ELSE d.types
AskOk(d, g) == LET a == Ask(d, g) IN
               /\ a.k # "" /\ TypeOk(ResTypes(d), a.k) /\ ~a.bad /\ a.cap # 0
               /\ IF IsStore(a.k) THEN a.fill = -1 ELSE IsContainer(a.k) /\ (a.cap # -1 => a.fill <= a.cap)
Made(d, g) == LET a == Ask(d, g) IN [t |-> "res", k |-> a.k, v |-> <<a.cap, IF a.fill = -1 THEN 0 ELSE a.fill>>, m |-> <<>>]
ResErrs(d, g) == CASE g.t = "resd" -> IF AskOk(d, g) THEN {} ELSE {"UpstageError"}
                   [] g.t = "res"  -> IF TypeOk(ResTypes(d), g.k) THEN {} ELSE {"UpstageError"}
                   [] OTHER        -> {"UpstageError"}
ResVal(d, g) == IF g.t = "resd" THEN Made(d, g) ELSE g
MultiErrs(d, g) == UNION {IF ResErrs(d, g.m[i].v) = {} THEN {} ELSE {"UpstageError", "TypeError"} : i \in DOMAIN g.m}
MultiVal(d, g) == [t |-> g.t, k |-> g.k, v |-> g.v, m |-> [i \in DOMAIN g.m |-> [k |-> g.m[i].k, v |-> ResVal(d, g.m[i].v)]]]

(* ------------------------------------------------------------------ values *)
Errs(d, g) == CASE d.kind = "res"   -> ResErrs(d, g)
                [] d.kind = "multi" -> MultiErrs(d, g)
                [] OTHER -> IF d.types = <<>> \/ Rng(d.types) \cap Supers(g.t) # {} THEN {} ELSE {"TypeError"}
Val(d, g) == CASE d.kind = "res" -> ResVal(d, g) [] d.kind = "multi" -> MultiVal(d, g) [] OTHER -> g
DefGiven(d) == IF d.kind = "res" THEN [t |-> "resd", k |-> "", v |-> <<-1, -1, 0>>, m |-> <<>>] ELSE d.dv
DefErrs(d) == IF d.kind # "res" /\ d.def = "no" THEN {} ELSE Errs(d, DefGiven(d))
DefVal(d) == IF d.kind # "res" /\ d.def = "no" THEN Unset ELSE Val(d, DefGiven(d))

(* ------------------------------------------------------------------ operations *)
(* given: sequence of [n, v] *)
MakeErrs(C, i, given) ==
  LET names == {given[j].n : j \in DOMAIN given} IN
    (IF names \ NamesOf(C, i) # {} THEN {"UpstageError"} ELSE {})
    \cup (IF {d \in StatesOf(C, i) : ~HasDefault(d) /\ d.n \notin names} # {} THEN {"UpstageError"} ELSE {})
    \cup (IF \E d \in StatesOf(C, i) : d.noinit /\ d.n \in names THEN {"SimulationError"} ELSE {})
    \cup (IF "log" \in NamesOf(C, i) THEN {"UpstageError"} ELSE {})
    \cup (IF Clash(C, i) THEN {"SimulationError"} ELSE {})
    \cup UNION {IF given[j].n \in NamesOf(C, i) THEN Errs(Decl(C, i, given[j].n), given[j].v) ELSE {} : j \in DOMAIN given}
    \cup UNION {IF d.n \notin names /\ HasDefault(d) THEN DefErrs(d) ELSE {} : d \in StatesOf(C, i)}
GivenVal(given, n) == LET j == CHOOSE j \in DOMAIN given : given[j].n = n IN given[j].v
MakeVals(C, i, given) ==
  [n \in NamesOf(C, i) |-> IF \E j \in DOMAIN given : given[j].n = n THEN Val(Decl(C, i, n), GivenVal(given, n)) ELSE DefVal(Decl(C, i, n))]
SetErrs(C, a, n, v) ==
  LET d == Decl(C, a.c, n) IN
  CASE d.kind = "res" -> {"UpstageError"}
    [] d.kind = "multi" -> {"SimulationError"}
    [] OTHER -> (IF d.frozen /\ a.v[n].t # "unset" THEN {"SimulationError"} ELSE {}) \cup Errs(d, v)

DeclInit(cfg) == [C |-> cfg.classes, A |-> <<>>, err |-> "", kf |-> ""]

Outcome(e, errs) == IF errs = {} THEN e.exc = "" ELSE e.exc \in errs
Grow(x) == CASE x.t \in {"list", "sub"} -> [x EXCEPT !.v = Append(@, 7)]
             [] x.t = "res" -> [x EXCEPT !.v[2] = IF x.v[1] # -1 /\ @ >= x.v[1] THEN @ ELSE @ + 1]
             [] OTHER -> x
Part(m, k) == CHOOSE i \in DOMAIN m : m[i].k = k

Step1(s, e) ==
  CASE e.op = "class" ->
         IF Outcome(e, ClassErrs(s.C, e.c)) THEN s
         ELSE Fail(s, IF e.exc = "" THEN "a class that cannot be declared was accepted" ELSE "declaring a class raised " \o e.exc)
    [] e.op = "sig" ->
         IF {x.n : x \in Rng(e.sig)} # {d.n : d \in {f \in StatesOf(s.C, e.c) : ~f.noinit}} THEN Fail(s, "the signature does not name exactly the states that can be given")
         ELSE s
    [] e.op = "make" ->
         LET errs == MakeErrs(s.C, e.c, e.given) IN
         IF ~Outcome(e, errs) THEN Fail(s, IF e.exc = "" THEN "an actor that cannot be made was made" ELSE "making an actor raised " \o e.exc)
         ELSE IF e.exc # "" THEN s
         ELSE [s EXCEPT !.A = Append(@, [c |-> e.c, v |-> MakeVals(s.C, e.c, e.given)])]
    [] e.op = "set" ->
         LET errs == SetErrs(s.C, s.A[e.a], e.n, e.v) IN
         IF ~Outcome(e, errs) THEN Fail(s, IF e.exc = "" THEN "a refused value was assigned" ELSE "assigning raised " \o e.exc)
         ELSE IF e.exc # "" THEN s ELSE [s EXCEPT !.A[e.a].v[e.n] = e.v]
    [] e.op = "read" ->
         IF (s.A[e.a].v[e.n].t = "unset") # (e.exc # "") THEN Fail(s, "reading an unset state, or a set one, went wrong: " \o e.exc) ELSE s
    [] e.op = "grow" -> IF e.exc # "" THEN Fail(s, "changing the content raised " \o e.exc) ELSE [s EXCEPT !.A[e.a].v[e.n] = Grow(@)]
    [] e.op = "growpart" -> IF e.exc # "" THEN Fail(s, "changing the content raised " \o e.exc)
                            ELSE [s EXCEPT !.A[e.a].v[e.n].m[Part(s.A[e.a].v[e.n].m, e.k)].v = Grow(@)]
    [] OTHER -> Fail(s, "unknown operation " \o e.op)

Same(o, a) == {x.n : x \in Rng(o)} = DOMAIN a.v /\ \A x \in Rng(o) : x.v = a.v[x.n]
DeclStep(s, e) ==
  LET n == Step1(s, e) IN
  IF n.err # "" THEN n
  ELSE IF Len(e.obs) # Len(n.A) THEN Fail(n, "wrong number of actors")
  ELSE IF \E i \in DOMAIN n.A : ~Same(e.obs[i], n.A[i])
       THEN Fail(n, CASE e.op = "make" -> "a state does not have its given or default value"
                      [] e.op = "set" /\ e.exc # "" -> "a refused assignment changed something"
                      [] OTHER -> "a state has a wrong value, or another actor's changed")
  ELSE n
=============================================================================

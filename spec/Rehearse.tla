------------------------------ MODULE Rehearse ------------------------------
(* Clones and rehearsals.  Actor 1 is the real one and lives on the          *)
(* simulation's clock; the others are clones, each with a clock of its own.  *)
(* Tasks are short programs of actions; the same interpreter gives what a    *)
(* rehearsal has to predict and what really running the task has to do, so   *)
(* that both are judged against one meaning.  Times and values are integers, *)
(* -1 in a list stands for the planning factor object.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(X, m) == [X EXCEPT !.err = m]
None_ == -99

RehearseInit(cfg) ==
  LET Ln(v) == [v |-> v, t |-> 0, rs |-> <<>>, h |-> <<>>]
      A == [t |-> 0, sim |-> FALSE, x |-> cfg.x0, hx |-> <<>>, hr |-> <<>>,
            lin |-> [f |-> Ln(cfg.f0), g |-> Ln(cfg.f0 + 1), p |-> Ln(cfg.f0 + 2)],
            l |-> cfg.l0, d |-> [a |-> cfg.d0, b |-> None_, p |-> cfg.p0], hd |-> [a |-> <<>>, b |-> <<>>, p |-> <<>>, n |-> <<>>],
            s |-> cfg.s0, hs |-> <<>>, c |-> cfg.c0, mu |-> <<>>, mw |-> cfg.c0, cs |-> <<>>,
            know |-> [k1 |-> None_, k2 |-> None_], q |-> <<>>, nt |-> <<>>, y |-> None_, z |-> 7, u |-> 1,
            bx |-> [bl |-> 0, bs |-> 0, bo |-> 0, bn |-> 0, bk |-> cfg.bk, bg |-> None_],
            w |-> None_, wm |-> FALSE, fs |-> <<>>, hfs |-> <<>>, ss |-> <<>>, hss |-> <<>>, dt |-> TRUE, told |-> <<>>]
  IN [a |-> <<A>>, c |-> cfg, run |-> [on |-> FALSE, name |-> "", left |-> <<>>, wake |-> 0, n |-> 0], ents |-> <<2, cfg.groups, cfg.mons>>,
      src |-> 1, gb |-> 0, err |-> "", kf |-> ""]

(* ------------------------------------------------------------- histories *)
Add(h, e) == IF h # <<>> /\ h[Len(h)] = e THEN h ELSE Append(h, e)
SetX(A, v) == [A EXCEPT !.x = v, !.hx = Add(@, <<A.t, v>>), !.hr = Add(@, <<A.t, v % 3>>)]
(* The states that change with time: f (linear), g (linear, shared by tasks), p (a location moving along a line). *)
SetL(A, n, v) == [A EXCEPT !.lin[n].v = v, !.lin[n].t = A.t, !.lin[n].h = Add(@, <<A.t, 0, v>>)]
RECURSIVE SumR(_)
SumR(q) == IF q = <<>> THEN 0 ELSE q[1][2] + SumR(Tail(q))
IsOn(A, n) == A.lin[n].rs # <<>>
ValL(A, n) == A.lin[n].v + SumR(A.lin[n].rs) * (A.t - A.lin[n].t)
ReadL(A, n) == IF IsOn(A, n) THEN SetL(A, n, ValL(A, n)) ELSE A
MarkL(A, n, m) == [A EXCEPT !.lin[n].h = Append(@, <<A.t, m, 0>>)]
Owners(A, n) == {A.lin[n].rs[i][1] : i \in DOMAIN A.lin[n].rs}
DropL(A, n, own) == IF own \notin Owners(A, n) THEN A
                    ELSE LET B == [ReadL(A, n) EXCEPT !.lin[n].rs = SelectSeq(@, LAMBDA r : r[1] # own)]
                         IN IF IsOn(B, n) THEN B ELSE MarkL(B, n, 2)
ReadW(X, A) == IF A.wm THEN [A EXCEPT !.w = X.src] ELSE A
ReadF(X, A) == ReadW(X, ReadL(ReadL(ReadL(A, "f"), "g"), "p"))
(* what the motion manager is told: nothing of a clone *)
Tell(A, m) == IF A.sim THEN A ELSE [A EXCEPT !.told = Append(@, m)]
SumD(d) == (IF d.a = None_ THEN 0 ELSE d.a) + (IF d.b = None_ THEN 0 ELSE d.b)
SetD(A, k, v) == LET B == [A EXCEPT !.d[k] = v, !.hd[k] = Add(@, <<A.t, v>>)]
                 IN IF k = "p" THEN B ELSE [B EXCEPT !.hd.n = Add(@, <<A.t, SumD(B.d)>>)]
Len_(A) == [A EXCEPT !.hs = Add(@, <<Len(A.s)>>)]
PutS(A, v) == Len_([A EXCEPT !.s = Append(@, v)])
FLen(A) == [A EXCEPT !.hfs = Add(@, <<Len(A.fs)>>)]
SLen(A) == [A EXCEPT !.hss = Add(@, <<Len(A.ss)>>)]
Begin(A) == SLen(FLen(Len_(SetD(SetD(SetL(SetL(SetL(SetX(A, A.x), "f", A.lin.f.v), "g", A.lin.g.v), "p", A.lin.p.v), "a", A.d.a), "p", A.d.p))))

(* ----------------------------------------------------------- interpreter *)
RECURSIVE Min_(_)
Min_(q) == IF Len(q) = 1 THEN q[1] ELSE LET r == Min_(Tail(q)) IN IF q[1] < r THEN q[1] ELSE r
RECURSIVE Max_(_)
Max_(q) == IF Len(q) = 1 THEN q[1] ELSE LET r == Max_(Tail(q)) IN IF q[1] > r THEN q[1] ELSE r
RECURSIVE Takes(_)
Takes(m) == CASE m.k = "any" -> Min_([i \in DOMAIN m.ms |-> Takes(m.ms[i])])
              [] m.k = "all" -> Max_([i \in DOMAIN m.ms |-> Takes(m.ms[i])])
              [] OTHER -> m.t
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o Flat(Tail(qq))
(* A nested Any or All whose parent was over before it counts as complete or not, as one likes: its entry is left out. *)
RECURSIVE Flags(_, _, _)
Flags(m, t, up) ==
  LET mine == Takes(m)
      nest == m.k \in {"any", "all"}
  IN (IF nest /\ mine > up /\ mine <= t THEN <<>> ELSE <<IF mine <= t THEN 1 ELSE 0>>)
     \o (IF nest THEN Flat([i \in DOMAIN m.ms |-> Flags(m.ms[i], t, IF mine < up THEN mine ELSE up)]) ELSE <<>>)
RECURSIVE Gets(_)
Gets(m) == IF m.k = "g" THEN <<m.t>> ELSE IF m.k \in {"any", "all"} THEN Flat([i \in DOMAIN m.ms |-> Gets(m.ms[i])]) ELSE <<>>
RECURSIVE Sum_(_)
Sum_(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum_(Tail(q))

App(v) == [k |-> "app", v |-> v]
Clone(A, t, kn, gb) == [A EXCEPT !.t = t, !.sim = TRUE, !.lin = [n \in DOMAIN @ |-> [@[n] EXCEPT !.rs = <<>>]], !.wm = FALSE, !.told = <<>>,
                     !.bx.bg = IF gb = None_ THEN @ ELSE gb,
                     !.know = [n \in DOMAIN A.know |-> IF n \in DOMAIN kn THEN kn[n] ELSE A.know[n]]]

(* one action: [a |-> actor, st |-> "go" | "wait" | an error, dt, post |-> actions to do next, skip |-> actions to pass over] *)
RECURSIVE One(_, _, _, _)
RECURSIVE Exec(_, _, _, _)
RECURSIVE Through(_, _, _, _)
R(A) == [a |-> A, st |-> "go", dt |-> 0, post |-> <<>>, skip |-> 0]
W(A, dt, post) == [a |-> A, st |-> "wait", dt |-> dt, post |-> post, skip |-> 0]
E(A, e) == [a |-> A, st |-> e, dt |-> 0, post |-> <<>>, skip |-> 0]
One(X, A, a, own) ==
  CASE a.k = "wait" -> W(A, IF A.sim THEN a.r ELSE a.t, <<>>)
    [] a.k = "ev" -> W(A, a.t, <<App(IF A.sim THEN -1 ELSE 0)>>)
    [] a.k = "kev" -> W(A, a.t, <<>>)
    [] a.k = "get" -> W(A, a.t, <<App(IF A.sim THEN -1 ELSE a.v)>>)
    [] a.k = "cget" -> W(A, a.t, <<>>)
    [] a.k = "put" -> IF A.sim THEN W(A, a.r, <<>>) ELSE W(PutS(A, a.v), 0, <<>>)
    [] a.k = "hold" -> W(A, IF A.sim THEN a.t ELSE 0, <<[k |-> "wait", t |-> 2, r |-> 2]>>)
    [] a.k = "multi" ->
         LET t == Takes(a.m)
             g == Gets(a.m)
         IN W(A, t, <<[k |-> "apps", v |-> Flags(a.m, t, t)]>> \o
              (IF ~a.gv THEN <<>>
               ELSE [i \in DOMAIN g |-> IF g[i] <= t THEN App(IF A.sim THEN -1 ELSE 5) ELSE [k |-> "fail", e |-> "SimulationError"]]))
    [] a.k = "routine" -> W(A, Sum_(a.ts), <<>>)
    [] a.k = "windowed" -> W(A, 0, <<App(-1)>>)
    [] a.k = "act" -> IF a.n = "g" /\ own \in Owners(A, "g") THEN E(A, "UpstageError")
                      ELSE IF a.n # "g" /\ IsOn(A, a.n) THEN E(A, "SimulationError")
                      ELSE LET B == MarkL(SetL(A, a.n, ValL(A, a.n)), a.n, 1)
                               C == [B EXCEPT !.lin[a.n].rs = Append(@, <<own, a.v>>)]
                           IN R(IF a.n = "p" THEN Tell(C, 1) ELSE C)
    [] a.k = "deact" -> LET B == DropL(DropL(DropL(A, "f", own), "g", own), "p", own)
                        IN R(IF own \in Owners(A, "p") THEN Tell(B, 2) ELSE B)
    [] a.k = "det" -> R(Tell([A EXCEPT !.dt = (a.v = 1)], 3 + a.v))
    [] a.k = "box" -> R(IF A.bx[a.n] = None_ THEN A ELSE [A EXCEPT !.bx[a.n] = @ + 1])
    [] a.k = "routv" -> W(A, a.t, <<App(a.v)>>)
    [] a.k = "setx" -> R(SetX(A, a.v))
    [] a.k = "addx" -> R(SetX(A, A.x + a.v))
    [] a.k = "setf" -> R(SetL(A, a.n, a.v))
    [] a.k = "usef" -> LET B == ReadL(A, a.n) IN R([B EXCEPT !.l = Append(@, B.lin[a.n].v)])
    [] a.k = "app" -> R([A EXCEPT !.l = Append(@, a.v)])
    [] a.k = "apps" -> R([A EXCEPT !.l = @ \o a.v])
    [] a.k = "now" -> R([A EXCEPT !.l = Append(@, A.t)])
    [] a.k = "dset" -> R(SetD(A, a.n, a.v))
    [] a.k = "ks" -> R([A EXCEPT !.know[a.n] = a.v])
    [] a.k = "kc" -> IF A.know[a.n] = None_ THEN E(A, "SimulationError") ELSE R([A EXCEPT !.know[a.n] = None_])
    [] a.k = "kme" -> IF A.know[a.n] = None_ THEN E(A, "SimulationError") ELSE R([A EXCEPT !.l = Append(@, A.know[a.n])])
    [] a.k = "q" -> R([A EXCEPT !.q = a.q])
    [] a.k = "note" -> R([A EXCEPT !.nt = Append(@, <<A.t, a.v>>)])
    [] a.k = "ifx" -> IF A.x < a.v THEN [R(A) EXCEPT !.skip = a.t] ELSE R(A)
    [] a.k = "fail" -> E(A, a.e)
    [] a.k = "mimic" -> IF A.sim THEN E(A, "UpstageError") ELSE R(A)
    [] a.k = "reh" ->      \* the task rehearses another one, for its own actor
         LET B == ReadF(X, A)
             r == Through(X, Clone(B, X.a[1].t, <<>>, None_), X.c.progs[a.n], -1)
         IN IF r.st # "" THEN E(B, r.st) ELSE R([B EXCEPT !.l = Append(@, r.a.x)])
(* up to the next wait *)
Exec(X, A, p, own) ==
  IF p = <<>> THEN [a |-> A, st |-> "end", dt |-> 0, left |-> <<>>]
  ELSE LET r == One(X, A, p[1], own) IN
       IF r.st = "go" THEN Exec(X, r.a, r.post \o SubSeq(p, 2 + r.skip, Len(p)), own)
       ELSE [a |-> r.a, st |-> r.st, dt |-> r.dt, left |-> r.post \o Tail(p)]
(* to the end, passing over the waits *)
Through(X, A, p, own) ==
  LET r == Exec(X, A, p, own) IN
  IF r.st = "wait" THEN Through(X, [r.a EXCEPT !.t = @ + r.dt], r.left, own)
  ELSE [a |-> r.a, st |-> IF r.st = "end" THEN "" ELSE r.st]
(* a path through the network: the listed tasks, then queue and defaults up to the end task *)
RECURSIVE Path(_, _, _, _, _, _, _)
Path(X, A, list, i, prev, end, own) ==
  LET n == Len(list)
      how == IF i <= n THEN list[i] ELSE IF end = "" THEN "" ELSE IF A.q # <<>> THEN A.q[1] ELSE X.c.links[prev].default
      B == IF i > n /\ end # "" /\ A.q # <<>> THEN [A EXCEPT !.q = Tail(@)] ELSE A
  IN IF i > n /\ end = "" THEN [a |-> A, st |-> ""]
     ELSE IF how = "" THEN [a |-> A, st |-> "SimulationError"]
     ELSE IF how = end THEN [a |-> B, st |-> ""]
     ELSE LET r == Through(X, B, X.c.progs[how], own + i) IN
          IF r.st # "" THEN r
          ELSE IF i < n /\ list[i + 1] \notin {X.c.links[how].allowed[j] : j \in DOMAIN X.c.links[how].allowed} THEN [a |-> r.a, st |-> "SimulationError"]
          ELSE Path(X, r.a, list, i + 1, how, end, own)

(* ------------------------------------------------------------ a real run *)
RECURSIVE Go(_)
Go(X) ==   \* run the real task up to its next wait, going on to the next tasks
  LET r == Exec(X, X.a[1], X.run.left, 1000000 + X.run.n) IN
  CASE r.st = "wait" -> [X EXCEPT !.a[1] = r.a, !.run.left = r.left, !.run.wake = r.a.t + r.dt]
    [] r.st = "end" ->
         LET B == r.a
             nx == IF B.q # <<>> THEN B.q[1] ELSE X.c.links[X.run.name].default
             Y == [X EXCEPT !.a[1] = [B EXCEPT !.q = IF @ = <<>> THEN @ ELSE Tail(@)]]
         IN IF nx = "Z" THEN [Y EXCEPT !.run = [@ EXCEPT !.name = nx, !.left = <<>>, !.wake = 1000000000, !.n = @ + 1]]
            ELSE Go([Y EXCEPT !.run = [@ EXCEPT !.name = nx, !.left = X.c.progs[nx], !.n = @ + 1]])
    [] OTHER -> Fail(X, "the real task fails")
RECURSIVE Upto(_, _)
Upto(X, t) == IF ~X.run.on \/ X.run.wake >= t THEN [X EXCEPT !.a[1].t = t]
              ELSE Upto(Go([X EXCEPT !.a[1].t = X.run.wake]), t)

(* --------------------------------------------------------- observations *)
Obs(A) == [t |-> A.t, x |-> A.x, hx |-> A.hx, hr |-> A.hr, f |-> [n \in DOMAIN A.lin |-> A.lin[n].v], hf |-> [n \in DOMAIN A.lin |-> A.lin[n].h], l |-> A.l, d |-> A.d, hd |-> A.hd,
           s |-> A.s, hs |-> A.hs, c |-> A.c, mu |-> A.mu, mw |-> A.mw, cs |-> A.cs, know |-> A.know, q |-> A.q, nt |-> A.nt,
           y |-> A.y, z |-> A.z, u |-> A.u, bx |-> A.bx, w |-> A.w, fs |-> A.fs, hfs |-> A.hfs, ss |-> A.ss, hss |-> A.hss, dt |-> A.dt]
Names == [t |-> "clock", x |-> "state", hx |-> "history", hr |-> "recording function's history", f |-> "active states", hf |-> "active states' histories",
          l |-> "list state", d |-> "keyed states", hd |-> "keyed histories", s |-> "store", hs |-> "store's recorded quantities",
          c |-> "container", mu |-> "store in a multi-store state", mw |-> "container in a multi-store state", cs |-> "communication store",
          know |-> "knowledge", q |-> "task queue", nt |-> "log", y |-> "state not set at first", z |-> "no_init state", u |-> "frozen state",
          bx |-> "mutable values", w |-> "mimicking state", fs |-> "filter store", hfs |-> "filter store's recorded quantities", ss |-> "sorted store",
          hss |-> "sorted store's recorded quantities", dt |-> "detectability state"]
Check(X, e) ==
  IF X.err # "" THEN X
  ELSE LET Y == [X EXCEPT !.a = [i \in DOMAIN X.a |-> ReadF(X, X.a[i])]]
           bad == {<<i, n>> : i \in DOMAIN Y.a, n \in DOMAIN Names} 
           wrong == {p \in bad : e.obs[p[1]][p[2]] # Obs(Y.a[p[1]])[p[2]]}
       IN IF Len(e.obs) # Len(Y.a) THEN Fail(X, "actors appeared or vanished")
          ELSE IF wrong # {} THEN LET p == CHOOSE w \in wrong : \A v \in wrong : w[1] <= v[1] IN
               Fail(X, (IF p[1] = 1 THEN "real actor: " ELSE "clone: ") \o Names[p[2]] \o " is not as it should be")
          ELSE IF e.now # X.a[1].t THEN Fail(X, "the simulation's clock is wrong")
          ELSE IF e.run # X.run.name THEN Fail(X, "the network's running task is wrong")
          ELSE IF e.ents # X.ents THEN Fail(X, "the simulation's entities changed")
          ELSE IF e.mm # Y.a[1].told THEN Fail(X, "the motion manager was told something else")
          ELSE IF ~e.clean THEN Fail(X, "a task or its environment still thinks it is rehearsing")
          ELSE Y

(* ------------------------------------------------------------ operations *)
Exp(X, e, want) == IF e.exc \in {want, "*"} THEN X ELSE Fail(X, IF e.exc = "" THEN "an operation that has to fail did not: " \o want ELSE "an operation failed: " \o e.exc)
Rd(X, i) == [X EXCEPT !.a[i] = ReadF(X, @)]
Gb(X, e) == IF e.kg THEN X.gb ELSE None_
Step_(X, e) ==
  LET i == e.a
      A == X.a[i]
      Into(B) == [X EXCEPT !.a[i] = B]
  IN CASE e.op = "init" -> [X EXCEPT !.a[1] = Begin(@)]
       [] e.op = "start" -> Exp(Upto([X EXCEPT !.run = [on |-> TRUE, name |-> IF A.q # <<>> THEN A.q[1] ELSE e.n, left |-> X.c.progs[IF A.q # <<>> THEN A.q[1] ELSE e.n], wake |-> 0, n |-> 1],
                                      !.a[1].q = IF @ = <<>> THEN @ ELSE Tail(@)], 1), e, "")
       [] e.op = "advance" -> Exp(Upto(X, X.a[1].t + e.v), e, "")
       [] e.op = "tick" -> Exp(Into([A EXCEPT !.t = @ + e.v]), e, "")
       [] e.op = "clone" ->
            IF e.badinit THEN Exp([Rd(X, i) EXCEPT !.ents = e.ents], e, "SimulationError")   \* what a failed construction leaves is left open
            ELSE LET Y == Rd(X, i)
                     B == Clone(Y.a[i], A.t, e.know, Gb(X, e))
                     C == [B EXCEPT !.x = IF e.x = None_ THEN @ ELSE e.x, !.y = IF e.y = None_ THEN @ ELSE e.y]
                 IN Exp([Y EXCEPT !.a = Append(@, C)], e, "")
       [] e.op = "rehearse" ->      \* one task, for a clone of the actor
            LET Y == Rd(X, i)
                r == Through(Y, Clone(Y.a[i], A.t, e.know, Gb(X, e)), X.c.progs[e.n], e.own)
            IN Exp(IF r.st = "" THEN [Y EXCEPT !.a = Append(@, r.a)] ELSE Y, e, r.st)
       [] e.op = "continue" ->      \* one task, for the clone itself
            LET r == Through(X, A, X.c.progs[e.n], e.own) IN Exp(Into(r.a), e, r.st)
       [] e.op = "network" ->
            LET Y == Rd(X, i)
                r == Path(Y, Clone(Y.a[i], A.t, e.know, Gb(X, e)), e.list, 1, "", e.end, e.own)
            IN Exp(IF r.st = "" THEN [Y EXCEPT !.a = Append(@, r.a)] ELSE Y, e, r.st)
       [] e.op = "do" -> LET r == One(X, A, e.act, 0) IN Exp(Into(r.a), e, IF r.st = "go" THEN "" ELSE r.st)
       [] e.op = "sput" -> Exp(Into(PutS(A, e.v)), e, "")
       [] e.op = "sget" -> Exp(Into(Len_([A EXCEPT !.s = Tail(@)])), e, "")
       [] e.op = "cput" -> Exp(Into([A EXCEPT !.c = @ + e.v]), e, "")
       [] e.op = "muput" -> Exp(Into([A EXCEPT !.mu = Append(@, e.v)]), e, "")
       [] e.op = "mwput" -> Exp(Into([A EXCEPT !.mw = @ + e.v]), e, "")
       [] e.op = "csput" -> Exp(Into([A EXCEPT !.cs = Append(@, e.v)]), e, "")
       [] e.op = "fsput" -> Exp(Into(FLen([A EXCEPT !.fs = Append(@, e.v)])), e, "")
       [] e.op = "fsget" ->      \* asks for the last item by a filter; among equal items, simpy takes the first
            LET m == A.fs[Len(A.fs)]
                j == CHOOSE k \in DOMAIN A.fs : A.fs[k] = m /\ \A h \in 1..(k - 1) : A.fs[h] # m
            IN Exp(Into(FLen([A EXCEPT !.fs = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])), e, "")
       [] e.op = "ssput" -> Exp(Into(SLen([A EXCEPT !.ss = Append(@, e.v)])), e, "")
       [] e.op = "ssget" -> LET m == Min_(A.ss)
                                j == CHOOSE k \in DOMAIN A.ss : A.ss[k] = m /\ \A h \in 1..(k - 1) : A.ss[h] # m
                            IN Exp(Into(SLen([A EXCEPT !.ss = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])), e, "")
       [] e.op = "gapp" -> Exp([X EXCEPT !.gb = @ + 1], e, "")
       [] e.op = "src" -> Exp([X EXCEPT !.src = e.v], e, "")
       [] e.op = "mim" -> Exp(Into([A EXCEPT !.wm = TRUE]), e, "")
       [] e.op = "unmim" -> Exp(Into([ReadW(X, A) EXCEPT !.wm = FALSE]), e, "")
       [] e.op = "setw" -> Exp(Into([A EXCEPT !.w = e.v]), e, "")
       [] e.op = "sety" -> Exp(Into([A EXCEPT !.y = e.v]), e, "")
       [] e.op = "setz" -> Exp(Into([A EXCEPT !.z = e.v]), e, "")
       [] e.op = "qpop" -> Exp(Into([A EXCEPT !.q = Tail(@)]), e, "")
RehearseStep(X, e) == Check(Step_(X, e), e)
=============================================================================

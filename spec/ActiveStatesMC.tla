--------------------------- MODULE ActiveStatesMC ---------------------------
(* All short histories of activations, assignments, reads, mimicking and     *)
(* clock steps, against an independent account of what each state should     *)
(* read (a log of intervals) and of what a history should look like.         *)
EXTENDS ActiveStates, Json
CONSTANTS Depth, Gen, Kinds
VARIABLES x, prog, ivs, base, hs, ok
vars == <<x, prog, ivs, base, hs, ok>>
K == <<"lin", "shared", "plain", "cart">>
Cfgs == [lin |-> <<"lin", "plain">>, shared |-> <<"shared", "lin">>, cart |-> <<"cart", "cart">>, mix |-> <<"lin", "plain", "plain">>]
Lay == Cfgs[Kinds]
St(k) == [a |-> 1, n |-> "", k |-> k, rec |-> TRUE, dup |-> FALSE, fn |-> k \in {"lin", "plain"}, v0 |-> IF k = "cart" THEN <<0, 0, 0>> ELSE <<16>>, still |-> FALSE]
N == DOMAIN Lay
P1 == <<[to |-> <<360, 480, 0>>, len |-> 5], [to |-> <<360, 600, 0>>, len |-> 1]>>
Ops == {[op |-> "tick", d |-> d] : d \in {1, 4}}
  \cup {[op |-> o, s |-> i] : o \in {"read"}, i \in N}
  \cup {[op |-> "set", s |-> i, v |-> <<40>>] : i \in {j \in N : Lay[j] # "cart"}}
  \cup {[op |-> "act", s |-> i, k |-> k, rate |-> r, legs |-> IF Lay[i] = "cart" THEN <<<<<<3, 4, 0>>, 5>>, <<<<0, 1, 0>>, 1>>>> ELSE <<>>]
        : i \in {j \in N : Lay[j] # "plain"}, k \in {1, 2}, r \in IF Kinds = "cart" THEN {4} ELSE {4, -2}}
  \cup {[op |-> "deact", s |-> i, k |-> k] : i \in {j \in N : Lay[j] # "plain"}, k \in {1, 2}}
  \cup (IF Kinds \in {"mix", "cart"} THEN {[op |-> "mimic", s |-> i, src |-> i - 1, k |-> k] : i \in N \ {1}, k \in {1, 2}} \cup {[op |-> "unmimic", s |-> i, k |-> k] : i \in N \ {1}, k \in {1, 2}} ELSE {})

(* what the model does with an operation; disallowed ones change nothing *)
Do(X0, o) ==
  LET X == [X0 EXCEPT !.out = [i \in I(X0) |-> <<>>], !.fout = [i \in I(X0) |-> <<>>]] IN
  CASE o.op = "tick" -> [X EXCEPT !.t = @ + o.d]
    [] o.op = "read" -> IF Bad(X, o.s) THEN X ELSE Read(X, o.s)
    [] o.op = "set" -> Set(X, o.s, o.v)
    [] o.op = "act" -> IF CanAct(X, o.s, o.k) /\ X.mim[o.s] = 0 /\ (Loc(X, o.s) => \A c \in 1..3 : X.v[o.s][c] % 120 = 0)
                       THEN Act(X, o.s, o.k, [rate |-> o.rate, path |-> IF o.legs = <<>> THEN <<>> ELSE
                              LET a == [c \in 1..3 |-> X.v[o.s][c] + 120 * o.legs[1][1][c]]
                              IN <<[to |-> a, len |-> 5], [to |-> [c \in 1..3 |-> a[c] + 120 * o.legs[2][1][c]], len |-> 1]>>]) ELSE X
    [] o.op = "deact" -> IF o.k \in Tasks(X, o.s) THEN Deact(X, o.s, o.k) ELSE X
    [] o.op = "mimic" -> IF X.mim[o.s] = 0 /\ X.own[o.s] = {} THEN [Read(X, o.src) EXCEPT !.mim[o.s] = o.src, !.mt[o.s] = o.k] ELSE X
    [] o.op = "unmimic" -> IF X.mim[o.s] # 0 /\ X.mt[o.s] = o.k THEN Unmimic(X, o.s) ELSE X
NoBad(X, o) == o.op = "tick" => \A i \in I(X) : ~Beyond([X EXCEPT !.t = @ + o.d], i)

(* the independent account: who changed what when *)
Done(X, o, what) == CASE what = "act" -> o.op = "act" /\ Lin(X, o.s) /\ CanAct(X, o.s, o.k) /\ X.mim[o.s] = 0
                      [] what = "deact" -> o.op = "deact" /\ Lin(X, o.s) /\ o.k \in Tasks(X, o.s)
Ivs(X, o) == IF Done(X, o, "act") THEN ivs \cup {[s |-> o.s, k |-> o.k, r |-> o.rate, b |-> X.t, e |-> -1, n |-> Cardinality(ivs)]}
             ELSE IF Done(X, o, "deact") THEN {IF v.s = o.s /\ v.k = o.k /\ v.e = -1 THEN [v EXCEPT !.e = X.t] ELSE v : v \in ivs} ELSE ivs
Base(X, Y, o) == [i \in N |->
   IF o.op = "set" /\ o.s = i /\ X.mim[i] = 0 THEN [t |-> X.t, v |-> o.v]
   ELSE IF X.mim[i] # 0 THEN [t |-> X.t, v |-> Val(X, i)]      \* as long as it mimics, and at the end of it
   ELSE base[i]]
RECURSIVE Area(_, _, _)
Area(S, from, to) == IF S = {} THEN 0 ELSE
   LET v == CHOOSE w \in S : TRUE
       lo == IF v.b > from THEN v.b ELSE from
       hi == IF v.e # -1 /\ v.e < to THEN v.e ELSE to
   IN (IF hi > lo THEN v.r * (hi - lo) ELSE 0) + Area(S \ {v}, from, to)

MCInit == /\ x = InitRec(ActiveStatesInit([q |-> 1, st |-> [i \in N |-> St(Lay[i])]]), 1)
          /\ prog = <<>> /\ ivs = {} /\ ok = TRUE
          /\ base = [i \in N |-> [t |-> 0, v |-> x.v[i]]] /\ hs = x.out
MCNext == /\ Len(prog) < Depth
          /\ \E o \in Ops : /\ NoBad(x, o)
                            /\ x' = Do(x, o) /\ prog' = Append(prog, o)
                            /\ ivs' = Ivs(x, o) /\ base' = Base(x, x', o) /\ hs' = [i \in N |-> hs[i] \o x'.out[i]]
                            /\ ok' = (\A i \in N : o.op = "read" => Val(x', i) = Val(x, i))       \* reading changes no value
MCSpec == MCInit /\ [][MCNext]_vars
MCView == IF Gen THEN <<x, prog>> ELSE <<x, Len(prog), ivs, base, hs, ok>>

Integral == \A i \in N : Lin(x, i) /\ x.mim[i] = 0 => Val(x, i) = <<base[i].v[1] + Area({v \in ivs : v.s = i}, base[i].t, x.t)>>
Mirror == \A i \in N : x.mim[i] # 0 => Val(x, i) = Val(x, x.mim[i])
Keeps == \A i \in N : x.own[i] = {} /\ x.mim[i] = 0 /\ ~Lin(x, i) /\ ~Loc(x, i) => Val(x, i) = base[i].v
History == \A i \in N : \A j \in 1..(Len(hs[i]) - 1) :
             /\ hs[i][j][1] <= hs[i][j + 1][1] /\ hs[i][j] # hs[i][j + 1]
             /\ Len(hs[i][j + 1][2]) = 5 => hs[i][j][1] = hs[i][j + 1][1] /\ Len(hs[i][j][2]) # 5
(* a mimicking state's history shows what its source's history shows *)
OnPath == \A i \in N : Loc(x, i) /\ x.own[i] # {} /\ x.mim[i] = 0 /\ x.t > x.pt[i] =>
   LET p == Val(x, i)
       d == Gone(x, i)
       w == x.path[i]
   IN IF d <= 8 * w[1].len
      THEN (p[1] - x.p0[i][1]) * (p[1] - x.p0[i][1]) + (p[2] - x.p0[i][2]) * (p[2] - x.p0[i][2]) = 15 * 15 * d * d
      ELSE p[1] = w[1].to[1] /\ p[2] = w[1].to[2] + 15 * (d - 8 * w[1].len)
Inv == Integral /\ Mirror /\ Keeps /\ History /\ OnPath /\ ok
PrintProg == (Gen /\ Len(prog) = Depth) => PrintT("PROGRAM " \o ToJson([kinds |-> Lay, ops |-> prog]))
=============================================================================

----------------------------- MODULE KnowledgeMC -----------------------------
EXTENDS Knowledge, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
A == 1..2
N == {"x", "y"}
V == {0, 2}
Ops == {[op |-> "set", a |-> a, n |-> n, v |-> v, ow |-> o] : a \in A, n \in N, v \in V, o \in BOOLEAN}
  \cup {[op |-> "clear", a |-> a, n |-> n] : a \in A, n \in N}
  \cup {[op |-> "getclear", a |-> a, n |-> n] : a \in A, n \in N}
  \cup {[op |-> "get", a |-> 1, n |-> n, must |-> TRUE] : n \in N}
  \cup {[op |-> "bset", a |-> 1, ps |-> <<[n |-> "x", v |-> 2], [n |-> "y", v |-> 0]>>, ow |-> o] : o \in BOOLEAN}
  \cup {[op |-> "bclear", a |-> 1, ns |-> ns] : ns \in {<<"x", "y">>, <<"y", "x">>}}
  \cup {[op |-> "bgetclear", a |-> 1, ns |-> <<"x", "y">>]}
  \cup {[op |-> "kevent", a |-> a, n |-> n, v |-> 100 + Len(hist)] : a \in A, n \in N}
  \cup {[op |-> "ksucc", a |-> a, n |-> n] : a \in A, n \in N}
Do(o) ==
  LET m == s.k[o.a] IN
  CASE o.op = "set" -> [s EXCEPT !.k[o.a] = Set1(m, o.n, o.v, o.ow)[2]]
    [] o.op \in {"clear", "getclear"} -> [s EXCEPT !.k[o.a] = Clr1(m, o.n)[2]]
    [] o.op = "get" -> s
    [] o.op = "bset" -> [s EXCEPT !.k[o.a] = SetN(m, o.ps, o.ow)[2]]
    [] o.op \in {"bclear", "bgetclear"} -> [s EXCEPT !.k[o.a] = ClrN(m, o.ns)[2]]
    [] o.op = "kevent" -> [s EXCEPT !.k[o.a] = Set1(m, o.n, o.v, FALSE)[2], !.ev = IF m[o.n] = -1 THEN @ \cup {o.v} ELSE @]
    [] o.op = "ksucc" -> IF m[o.n] \in s.ev \ s.done THEN [s EXCEPT !.k[o.a][o.n] = -1, !.done = @ \cup {m[o.n]}] ELSE s
MCInit == s = KnowledgeInit([init |-> [a \in A |-> [n \in N |-> -1]]]) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : s' = Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
(* the properties: a succeeded event is gone; nothing else is affected by an operation; write-once without overwrite *)
Inv == \A a \in A : \A n \in N : ~(s.k[a][n] \in s.done)
Frame == [][LET o == hist'[Len(hist')] IN
              /\ \A a \in A \ {o.a} : s'.k[a] = s.k[a]
              /\ o.op \in {"set", "clear", "getclear", "kevent", "ksucc", "get"} => \A n \in N \ {o.n} : s'.k[o.a][n] = s.k[o.a][n]
              /\ (o.op = "kevent" \/ (o.op \in {"set", "bset"} /\ ~o.ow)) => \A n \in N : s.k[o.a][n] # -1 => s'.k[o.a][n] = s.k[o.a][n]]_<<s, hist>>
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([names |-> <<"x", "y">>, nact |-> 2, ops |-> hist]))
=============================================================================

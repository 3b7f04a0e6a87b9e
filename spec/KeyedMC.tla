------------------------------- MODULE KeyedMC ------------------------------
EXTENDS Keyed, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
I(x) == [ty |-> "int", x |-> x]
S(x) == [ty |-> "str", x |-> x]
St(kind, dup) == [a |-> 0, n |-> "st", kind |-> kind, rec |-> TRUE, dup |-> dup, types |-> <<"int">>, fns |-> <<"sum">>,
                  ft |-> [u |-> <<"int">>, w |-> <<"int">>],
                  m0 |-> IF kind = "dc" THEN <<[k |-> "u", v |-> I(0)], [k |-> "w", v |-> I(1)]>> ELSE <<[k |-> "u", v |-> I(0)]>>]
Confs == {<<St(k, d), St(k, d)>> : k \in {"dict", "dc"}, d \in BOOLEAN}
Vals == {I(0), I(1), S(1000)}
Ops == [op : {"set", "setdefault", "raw"}, s : {1, 2}, k : {"u", "w"}, v : Vals] \cup [op : {"add"}, s : {1}, k : {"u", "w"}, d : {0, 1}] \cup {[op |-> "tick", d |-> 4], [op |-> "replace", s |-> 1, m |-> <<>>]}
Do(o) ==
  CASE o.op = "tick" -> [s EXCEPT !.t = @ + o.d]
    [] o.op = "replace" -> s
    [] o.op = "raw" -> IF o.v.ty = "str" THEN s ELSE [s EXCEPT !.m[o.s] = Put(@, o.k, o.v)]
    [] o.op = "set" -> IF Allowed(s.c[o.s], o.k, o.v) THEN Change(s, o.s, o.k, o.v, s.t) ELSE s
    [] o.op = "setdefault" -> IF o.k \in Keys(s.m[o.s]) \/ ~Allowed(s.c[o.s], o.k, o.v) THEN s ELSE Change(s, o.s, o.k, o.v, s.t)
    [] o.op = "add" -> IF o.k \in Keys(s.m[o.s]) THEN Change(s, o.s, o.k, I(At(s.m[o.s], o.k).x + o.d), s.t) ELSE s
Useful(o) == ~(o.op = "setdefault" /\ s.c[1].kind = "dc") /\ ~(o.op = "raw" /\ o.v.ty = "str")
MCInit == \E c \in Confs : s = KeyedInit([states |-> c]) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Useful(o) /\ s' = Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist), {i \in DOMAIN hist : hist[i].op = "raw"} # {}>>
NoRaw == \A i \in DOMAIN hist : hist[i].op # "raw"
(* without access to the raw object the last entry of each key is its value, and no other keys have histories *)
Inv == \A i \in DOMAIN s.c :
         /\ NoRaw => \A k \in Keys(s.m[i]) : LET l == Last(s.h[i], k) IN l # <<>> /\ l[1].v = At(s.m[i], k)
         /\ \A j \in DOMAIN s.h[i] : s.h[i][j].k \in Keys(s.m[i]) /\ s.h[i][j].t <= s.t
         /\ \A j \in 1..Len(s.h[i]) - 1 : s.h[i][j].t <= s.h[i][j + 1].t
         /\ ~s.c[i].dup => \A j \in DOMAIN s.h[i] : \A q \in DOMAIN s.h[i] :
               (j < q /\ s.h[i][j] = s.h[i][q]) => \E r \in j + 1..q - 1 : s.h[i][r].k = s.h[i][j].k /\ s.h[i][r] # s.h[i][j]
         /\ \A j \in DOMAIN s.m[i] : s.m[i][j].v.ty = "int"
         /\ Cardinality(Keys(s.m[i])) = Len(s.m[i])
         /\ NoRaw => LET l == s.f[i][1] IN l[Len(l)].x = Sum(s.m[i])
(* histories only grow, keys keep their places, other states are untouched *)
Frame == [][LET o == hist'[Len(hist')] IN
             \A i \in DOMAIN s.c :
               /\ Len(s'.h[i]) >= Len(s.h[i]) /\ SubSeq(s'.h[i], 1, Len(s.h[i])) = s.h[i]
               /\ Len(s'.m[i]) >= Len(s.m[i]) /\ \A j \in DOMAIN s.m[i] : s'.m[i][j].k = s.m[i][j].k
               /\ (o.op \in {"tick", "replace"} \/ (o.op # "tick" /\ o.s # i)) => s'.m[i] = s.m[i] /\ s'.h[i] = s.h[i]
               /\ (o.op \in {"set", "add"} /\ o.s = i /\ s.c[i].dup /\ (o.op = "set" => o.v.ty = "int") /\ (o.op = "add" => o.k \in Keys(s.m[i]))) => Len(s'.h[i]) = Len(s.h[i]) + 1]_<<s, hist>>
PrintProg == (Gen /\ Len(hist) = Depth) =>
   PrintT("PROGRAM " \o ToJson([kind |-> s.c[1].kind, dup |-> s.c[1].dup, ops |-> hist]))
=============================================================================

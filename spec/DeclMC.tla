------------------------------- MODULE DeclMC -------------------------------
EXTENDS Decl, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
I(x) == [t |-> "int", k |-> "", v |-> <<x>>, m |-> <<>>]
T(x) == [t |-> "str", k |-> x, v |-> <<>>, m |-> <<>>]
L(x) == [t |-> "list", k |-> "", v |-> x, m |-> <<>>]
None == [t |-> "none", k |-> "", v |-> <<>>, m |-> <<>>]
P(n, def, dv, fr, ni, no, ty) == [n |-> n, kind |-> "plain", cls |-> "State", def |-> def, dv |-> dv, frozen |-> fr, noinit |-> ni, none |-> no, types |-> ty,
                                 recs |-> <<>>, dk |-> "", dkw |-> <<-1, -1>>, bare |-> FALSE]
R(n, dk, cap) == [P(n, "no", None, FALSE, FALSE, FALSE, <<>>) EXCEPT !.kind = "res", !.dk = dk, !.dkw = <<cap, -1>>]
Xs == {P("x", d[1], d[2], fr, ni, no, ty) : d \in {<<"no", None>>, <<"val", I(0)>>, <<"fac", L(<<>>)>>, <<"fac", None>>}, fr, ni, no \in BOOLEAN, ty \in {<<>>, <<"int">>, <<"list", "none">>}}
Ys == {P("y", "val", T(""), FALSE, FALSE, FALSE, <<"str">>), R("y", "Store", 1), R("y", "", -1), P("x", "val", I(1), FALSE, FALSE, FALSE, <<>>)}
Confs == {<<[bases |-> <<>>, mixin |-> FALSE, states |-> <<x>>], [bases |-> <<1>>, mixin |-> FALSE, states |-> <<y>>]>> : x \in Xs, y \in Ys}
Given == {<<>>} \cup {<<[n |-> "x", v |-> v]>> : v \in {I(1), T("a"), None}}
         \cup {<<[n |-> "x", v |-> I(1)], [n |-> "y", v |-> v]>> : v \in {T("b"), [t |-> "resd", k |-> "Container", v |-> <<2, 1, 0>>, m |-> <<>>]}}
         \cup {<<[n |-> "z", v |-> I(1)]>>}
Ops == [op : {"make"}, c : {2}, given : Given] \cup [op : {"set"}, a : {1, 2}, n : {"x"}, v : {I(5), None, L(<<1>>)}] \cup [op : {"grow"}, a : {1}, n : {"x", "y"}]
Ok(i) == ClassErrs(s.C, i) = {}
Poss(o) == CASE o.op = "make" -> Ok(1) /\ Ok(2) [] OTHER -> o.a <= Len(s.A) /\ o.n \in DOMAIN s.A[o.a].v
Errs_(o) == CASE o.op = "make" -> MakeErrs(s.C, o.c, o.given) [] o.op = "set" -> SetErrs(s.C, s.A[o.a], o.n, o.v) [] OTHER -> {}
Do(o) == IF Errs_(o) # {} THEN s
         ELSE CASE o.op = "make" -> [s EXCEPT !.A = Append(@, [c |-> o.c, v |-> MakeVals(s.C, o.c, o.given)])]
                [] o.op = "set" -> [s EXCEPT !.A[o.a].v[o.n] = o.v]
                [] o.op = "grow" -> [s EXCEPT !.A[o.a].v[o.n] = Grow(@)]
MCInit == \E c \in Confs : s = DeclInit([classes |-> c]) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Poss(o) /\ s' = Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
(* every actor has exactly the declared states, each of an allowed type; only an allowed missing default is unset *)
Inv == \A i \in DOMAIN s.A : LET a == s.A[i] IN
        /\ DOMAIN a.v = NamesOf(s.C, a.c)
        /\ \A n \in DOMAIN a.v : LET d == Decl(s.C, a.c, n) IN
             /\ a.v[n].t = "unset" => d.none /\ d.def = "no"
             /\ d.kind = "plain" /\ a.v[n].t # "unset" /\ d.types # <<>> => Rng(d.types) \cap Supers(a.v[n].t) # {}
             /\ d.kind = "res" => a.v[n].t = "res" /\ (a.v[n].v[1] # -1 => a.v[n].v[2] <= a.v[n].v[1])
(* a frozen state that has a value is never assigned; a refused operation and another actor's change nothing *)
Frame == [][LET o == hist'[Len(hist')] IN
             /\ \A i \in DOMAIN s.A : \A n \in DOMAIN s.A[i].v :
                  (Decl(s.C, s.A[i].c, n).frozen /\ s.A[i].v[n].t # "unset" /\ o.op # "grow") => s'.A[i].v[n] = s.A[i].v[n]
             /\ Errs_(o) # {} => s' = s
             /\ \A i \in DOMAIN s.A : (o.op = "make" \/ o.a # i) => s'.A[i] = s.A[i]]_<<s, hist>>
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([classes |-> s.C, ops |-> hist, seed |-> 1]))
=============================================================================

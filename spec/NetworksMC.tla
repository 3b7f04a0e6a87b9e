----------------------------- MODULE NetworksMC -----------------------------
EXTENDS Networks, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
Facs == <<[kind |-> "loop", dur |-> <<1, 2>>], [kind |-> "sterm", dur |-> <<2>>]>>
FN == <<"N", "N_1">>
Used == {"N", "N_1", "N_2"}
Ops == {[op |-> "add", a |-> 1, n |-> nm, f |-> f] : nm \in {"N", "N_1"}, f \in 1..2}
  \cup {[op |-> "delete", a |-> 1, n |-> nm] : nm \in {"N", "N_1"}}
  \cup {[op |-> "start", a |-> 1, n |-> nm, p |-> 1] : nm \in {"N", "N_1"}}
  \cup {[op |-> "setq", a |-> 1, n |-> "N", q |-> <<1, 2>>]}
  \cup {[op |-> "clearq", a |-> 1, n |-> "N"]}
  \cup {[op |-> "interrupt", a |-> 1, n |-> nm] : nm \in {"N", "N_1"}}
  \cup {[op |-> "suggest", a |-> 1, n |-> FN[f], f |-> f] : f \in 1..2}
  \cup {[op |-> "tick", a |-> 1, n |-> "", d |-> d] : d \in 1..2}
(* what the driver does not do either: see networks.py *)
Allowed(o) ==
  LET K == Known(s, o.a, o.n) IN
  CASE o.op = "add" -> {i \in DOMAIN s.nets : s.nets[i].name = o.n /\ ~s.nets[i].live /\ s.nets[i].on /\ s.nets[i].pos # 0} = {}
    [] o.op = "start" -> IF K = {} THEN TRUE ELSE ~s.nets[One(s, o.a, o.n)].on
    [] o.op = "setq" -> IF K = {} THEN FALSE ELSE LET n == s.nets[One(s, o.a, o.n)] IN n.fac = 1 /\ (~n.on \/ n.pos = 2)
    [] o.op = "clearq" -> K # {}
    [] o.op = "interrupt" -> IF K = {} THEN TRUE ELSE IF ~s.nets[One(s, o.a, o.n)].on THEN TRUE ELSE s.nets[One(s, o.a, o.n)].pos # 0
    [] OTHER -> TRUE
Quiet(x) == [x EXCEPT !.nets = [i \in DOMAIN @ |-> [@[i] EXCEPT !.out = <<>>]]]
MCInit == s = NetworksInit([facs |-> Facs]) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Allowed(o) /\
            LET e == IF o.op = "tick" THEN [op |-> "tick", a |-> 1, n |-> "", t |-> s.t + o.d] ELSE o IN
            s' = (IF Refused(s, e) THEN Quiet(s) ELSE Do(Quiet(s), e)) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
(* names are unique; a running task is within its time; the tasks of a loop follow each other *)
Inv == /\ \A nm \in Used : Cardinality(Known(s, 1, nm)) <= 1
       /\ \A i \in DOMAIN s.nets : LET n == s.nets[i] IN n.on /\ n.pos # 0 => n.end > s.t /\ n.end - s.f[n.fac].dur[n.pos] <= s.t
       /\ \A i \in DOMAIN s.nets : LET n == s.nets[i] IN \A j \in 1..(Len(n.out) - 1) : n.out[j + 1][2] = n.out[j][2] + s.f[n.fac].dur[n.out[j][1]]
(* an operation on one network leaves every other as it is *)
Frame == [][LET o == hist'[Len(hist')] IN
              o.op # "tick" => \A i \in DOMAIN s.nets : ~(s.nets[i].live /\ s.nets[i].name = o.n) => s'.nets[i] = Quiet(s).nets[i]]_<<s, hist>>
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([ops |-> hist]))
=============================================================================

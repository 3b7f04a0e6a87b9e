----------------------------- MODULE WindowedMC -----------------------------
EXTENDS Windowed, Json
CONSTANTS H, N, Gen
VARIABLES s, n, hist, fresh
Cfgs == {[init |-> i, par |-> p, t |-> t, reset |-> r, gap |-> g, pol |-> q] : i \in {<<>>, <<1, 2>>}, p \in {-1, 1}, t \in 1..2, r \in BOOLEAN, g \in 0..1, q \in {<<"END">>, <<"RESTART">>, <<"IGNORE", "END">>}}
St(e) == s' = WindowedStep([s EXCEPT !.kf = ""], e @@ [t |-> s.now])
Init == \E c \in Cfgs : s = WindowedStep(WindowedInit(c), [op |-> "begin", t |-> 0]) /\ n = 0 /\ hist = <<>> /\ fresh = FALSE
Act(c) == c[1]
Pend == s.mode = "win" /\ s.pend # 0
Closing == s.win.on /\ s.win.open /\ s.now >= s.win.close
Internal ==
  \/ s.mode \in {"next", "again"} /\ St([op |-> "begin"])
  \/ s.mode = "run" /\ St([op |-> IF s.cfg.gap = 0 THEN "end" ELSE "idle"])
  \/ Closing /\ \E k \in 0..Len(s.win.amb) : \E q \in {x \in [1..Cardinality(s.win.loose) -> s.win.loose] : \A y \in s.win.loose : \E i \in DOMAIN x : x[i] = y} :
       St([op |-> "result", list |-> q \o s.win.taken \o SubSeq(s.win.amb, 1, k)])
  \/ Pend /\ St([op |-> "intr", act |-> s.cfg.pol[1]])
Tick == /\ Settled(s) = "" /\ s.now < H
        /\ s' = LET x == WindowedStep(s, [op |-> "tick", t |-> s.now, to |-> s.now + 1]) IN IF x.mode = "idle" THEN [x EXCEPT !.mode = "next"] ELSE x
Outside == n < N /\ (Gen => fresh \/ Settled(s) = "") /\
  \E o \in {[s |-> "put", v |-> 10 + n], [s |-> "intr"]} :
    /\ IF o.s = "put" THEN St([op |-> "put", v |-> o.v]) ELSE St([op |-> "intrn", cause |-> "c"])
    /\ hist' = Append(hist, [at |-> s.now, after |-> Settled(s) = "", o |-> o])
Next == /\ s.err = ""
        /\ \/ Internal /\ fresh' = FALSE /\ UNCHANGED <<n, hist>>
           \/ Tick /\ fresh' = TRUE /\ UNCHANGED <<n, hist>>
           \/ Outside /\ n' = n + 1 /\ UNCHANGED fresh
MCSpec == Init /\ [][Next]_<<s, n, hist, fresh>>
MCView == IF Gen THEN <<s, hist, fresh>> ELSE <<s, n>>
All == R(s.cfg.init) \cup {hist[i].o.v : i \in {j \in DOMAIN hist : hist[j].o.s = "put"}}
Err == s.err = "" \/ s.err = "a window closed although its latest arrival had reset it"     \* choice of the environment above, refused
Conserve == s.err = "" => /\ s.got \cup Held(s) \cup s.pool \cup R(s.store) = All
                          /\ Cardinality(s.got) + Cardinality(s.win.loose) + Len(s.win.taken) + Len(s.win.amb) + Cardinality(s.pool) + Len(s.store) = Cardinality(All)
PrintProg == (Gen /\ n = N /\ hist[Len(hist)].at = s.now) => PrintT("PROGRAM " \o ToJson([cfg |-> s.cfg, hist |-> hist]))
=============================================================================

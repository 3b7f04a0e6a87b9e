----------------------------- MODULE ReserveMC ------------------------------
EXTENDS Reserve, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
Cfg == [init |-> 2, cap |-> 3, mon |-> TRUE]
Ops == {[op |-> "reserve", who |-> w, q |-> q, exp |-> x] : w \in 1..2, q \in 1..2, x \in {-1, 1, 2}}
       \cup {[op |-> o, who |-> w] : o \in {"cancel", "take"}, w \in 1..2}
       \cup {[op |-> "put", q |-> q, incr |-> FALSE] : q \in 1..2}
       \cup {[op |-> "settle"], [op |-> "advance", dt |-> 1]}
MCInit == s = RvInit(Cfg) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : s' = RvApply(s, o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
Inv == RvInv(s, Cfg.init)
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([cfg |-> Cfg, ops |-> hist]))
=============================================================================

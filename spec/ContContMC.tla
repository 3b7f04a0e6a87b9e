---------------------------- MODULE ContContMC ------------------------------
EXTENDS ContCont, Json
CONSTANTS Depth, Gen
VARIABLES s, hist
Cfg == [init |-> 2, cap |-> 4, errE |-> FALSE, errF |-> FALSE, mon |-> FALSE]
Nu(h) == FoldLeft(LAMBDA a, x : a + Cardinality({i \in DOMAIN x.batch : x.batch[i].op = "start"}), 0, h)
Batches == {<<>>} \cup {<<[op |-> "start", uid |-> Nu(hist) + 1, rate |-> r, dur |-> d]>> : r \in {-2, -1, 1, 3}, d \in {-1, 1, 2}}
           \cup {<<[op |-> "cancel", uid |-> u]>> : u \in {s.users[i].uid : i \in {j \in DOMAIN s.users : Running(s.users[j])}}}
           \cup (IF Gen THEN {} ELSE {<<[op |-> "start", uid |-> Nu(hist) + 1, rate |-> -2, dur |-> 2], [op |-> "start", uid |-> Nu(hist) + 2, rate |-> 1, dur |-> 1]>>})
Ev(dt, b) == [dt |-> dt, batch |-> b, ends |-> <<>>, exc |-> "", exct |-> 0]
MCInit == s = CcInit(Cfg) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E b \in Batches, dt \in 1..2 :
             s' = CcApply(s, Ev(dt, b)) /\ hist' = Append(hist, [dt |-> dt, batch |-> b])
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>
Inv == CcInv(s) /\ s.err = ""
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([cfg |-> Cfg, ops |-> hist]))
=============================================================================

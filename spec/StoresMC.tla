------------------------------ MODULE StoresMC ------------------------------
(* exhaustive exploration of Stores for small constants *)
EXTENDS Stores, Json
CONSTANTS Kind, Cap, Depth, Gen
VARIABLES s, hist, n

Cfg == [kind |-> Kind, cap |-> Cap, mon |-> TRUE, qf |-> "len", init |-> IF Kind = "container" THEN 1 ELSE 0]
Ids == {h.op : h \in Range_(hist)}
NPut == Cardinality({i \in DOMAIN hist : hist[i].op = "put"})
NGet == Cardinality({i \in DOMAIN hist : hist[i].op = "get"})

PutOps == IF Kind = "container" THEN {[op |-> "put", pid |-> n, item |-> [id |-> n, k |-> 0, c |-> 0], amt |-> a] : a \in 1..2}
          ELSE {[op |-> "put", pid |-> n, item |-> [id |-> n, k |-> k, c |-> c], amt |-> 0] : k \in 0..1, c \in IF Kind = "store" THEN {0} ELSE 0..1}
GetOps == IF Kind = "container" THEN {[op |-> "get", rid |-> n, cls |-> <<>>, sort |-> "none", rev |-> FALSE, amt |-> a] : a \in 1..2}
          ELSE IF Kind = "store" THEN {[op |-> "get", rid |-> n, cls |-> <<>>, sort |-> "none", rev |-> FALSE, amt |-> 0]}
          ELSE IF Kind = "filter" THEN {[op |-> "get", rid |-> n, cls |-> c, sort |-> "none", rev |-> FALSE, amt |-> 0] : c \in {<<0>>, <<1>>, <<0, 1>>}}
          ELSE {[op |-> "get", rid |-> n, cls |-> c, sort |-> "key", rev |-> r, amt |-> 0] : c \in {<<0>>, <<0, 1>>}, r \in BOOLEAN}
CancelOps == {[op |-> "cancelg", rid |-> s.getq[i].rid] : i \in DOMAIN s.getq}
             \cup {[op |-> "cancelp", rid |-> s.putq[i].pid] : i \in DOMAIN s.putq}
OtherOps == (IF s.evq # <<>> THEN {[op |-> "step"], [op |-> "settle"]} ELSE {}) \cup
            (IF hist # <<>> /\ hist[Len(hist)].op = "advance" THEN {} ELSE {[op |-> "advance", dt |-> 1]})

MCInit == s = Start(Cfg) /\ hist = <<>> /\ n = 1
MCNext == /\ Len(hist) < Depth
          /\ \E o \in PutOps \cup GetOps \cup CancelOps \cup OtherOps :
                s' = Apply(s, o) /\ hist' = Append(hist, o)
          /\ n' = n + 1
MCSpec == MCInit /\ [][MCNext]_<<s, hist, n>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, n>>

Inv == Conservation(s, {}) /\ LevelOk(s) /\ CapOk(s) /\ NoBlocking(s) /\ RecordTrue(s)
PrintProg == (Gen /\ Len(hist) = Depth) => PrintT("PROGRAM " \o ToJson([cfg |-> Cfg, ops |-> hist]))
=============================================================================

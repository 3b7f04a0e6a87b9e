------------------------------- MODULE UnitsMC ------------------------------
(* Every combination of spellings is enumerated and run on the real code; the *)
(* table itself is checked for being a proper system of units.                *)
EXTENDS Units, Json
CONSTANTS Gen
VARIABLES p
Sp == DOMAIN Canon
T == {"ticks", "parsec"}
Waits == {[op |-> "wait", su |-> su, unit |-> u, vn |-> v, vd |-> 2] : su \in Sp \cup T \cup {""}, u \in Sp \cup T \cup {"", "km"}, v \in {1, 6}}
Convs == {[op |-> "conv", from |-> a, to |-> b, vn |-> 3, vd |-> 2] : a \in Sp \cup DOMAIN Len10 \cup {"parsec"}, b \in Sp \cup DOMAIN Len10 \cup {"parsec"}}
Clocks == {[op |-> "clock", su |-> su, half |-> h, quarter |-> h, daily |-> d] : su \in Sp \cup T \cup {""}, h \in {0, 7199, 7200, 172800, 172799, 1209601}, d \in {0, 10}}
MCInit == p \in Waits \cup Convs \cup Clocks
MCNext == UNCHANGED p
MCSpec == MCInit /\ [][MCNext]_p
Inv == /\ \A a, b \in Sp : S(a) > 0 /\ (S(a) % S(b) = 0 \/ S(b) % S(a) = 0)
       /\ Canon[Canon[CHOOSE x \in Sp : TRUE]] = Canon[CHOOSE x \in Sp : TRUE]
       /\ p.op = "clock" => LET t == p.half \div 2 IN (t \div 86400) * 86400 + ((t % 86400) \div 3600) * 3600 + ((t % 3600) \div 60) * 60 + (t % 60) = t
PrintProg == PrintT("PROGRAM " \o ToJson([ops |-> <<p>>]))
=============================================================================

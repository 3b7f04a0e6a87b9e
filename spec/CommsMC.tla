------------------------------ MODULE CommsMC -------------------------------
(* Small worlds for Comms: four actors; a point to point manager or a router, *)
(* every sequence of sends, failures, repairs and passing time.               *)
EXTENDS Comms, Json
CONSTANTS Depth, Gen
VARIABLES s, hist, pick

Store(a) == [a |-> a, modes |-> <<"m">>]
Mg(kind, send, max, ignore) == [kind |-> kind, mode |-> "m", send |-> send, max |-> max, rate |-> 2, ignore |-> ignore, debug |-> TRUE, conn |-> <<>>]
Nets == { {<<1, 2>>, <<2, 4>>, <<1, 3>>, <<3, 4>>}, {<<1, 2>>, <<2, 4>>, <<1, 3>>, <<3, 2>>, <<2, 1>>}, {<<1, 4>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<3, 1>>} }
Confs == {[c |-> [stores |-> <<Store(1), Store(2), Store(3), Store(4)>>, mgrs |-> <<Mg(k, sd, mx, ig)>>], net |-> n] :
             k \in {"p"}, sd \in {0, 1}, mx \in {0, 3}, ig \in {FALSE}, n \in {{}}}
    \cup {[c |-> [stores |-> <<Store(1), Store(2), Store(3), Store(4)>>, mgrs |-> <<Mg(k, sd, mx, ig)>>], net |-> n] :
             k \in {"r"}, sd \in {1}, mx \in {0, 3}, ig \in BOOLEAN, n \in Nets}
O(op) == [op |-> op, m |-> 1]
Ops == {O("send") @@ [a |-> 1, b |-> b, how |-> "str"] : b \in {2, 4}}
    \cup {O("advance") @@ [v |-> v] : v \in {1, 3}}
    \cup {O(op) @@ [a |-> 1, b |-> 2] : op \in {"block", "unblock"}}
    \cup {O(op) @@ [a |-> a] : op \in {"blocknode", "unblocknode"}, a \in {2, 4}}
    \cup {O("degrade") @@ [on |-> b] : b \in BOOLEAN}
Useful(o) == CASE o.op = "block" -> ~In(s.m[1].links, <<o.a, o.b>>)
               [] o.op = "unblock" -> In(s.m[1].links, <<o.a, o.b>>)
               [] o.op = "blocknode" -> ~In(s.m[1].nodes, o.a)
               [] o.op = "unblocknode" -> In(s.m[1].nodes, o.a)
               [] o.op = "degrade" -> s.m[1].down # o.on
               [] o.op = "send" -> Len(s.g) < 3
               [] o.op = "advance" -> s.g # <<>>
MCInit == \E c \in Confs, p \in {1, -1} : (c.net = {} => p = 1) /\ pick = p /\ s = [CommsInit(c.c) EXCEPT !.m[1].net = c.net] /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E o \in Ops : Useful(o) /\ s' = Step_(s, o @@ [pick |-> pick, exc |-> "", hops |-> <<>>]) /\ hist' = Append(hist, o)
          /\ UNCHANGED pick
MCSpec == MCInit /\ [][MCNext]_<<s, hist, pick>>
QuietSoFar == \A i \in DOMAIN hist : hist[i].op \in {"send", "advance"}
MCView == IF Gen THEN <<s, hist, pick>> ELSE <<s, Len(hist), pick, QuietSoFar>>

Mg1 == s.c.mgrs[1]
NoErr == s.err = ""
(* a message is on its way, dropped, or in the store of its destination, once *)
Fates == \A i \in DOMAIN s.g : LET G == s.g[i] IN
   /\ G.st \in {"new", "try", "move", "done", "drop"}
   /\ G.st = "done" => G.at = G.dst /\ G.cur \in {G.dst, G.src} /\ G.wake >= G.made
   /\ G.st \in {"new", "try", "move"} => G.wake >= s.t
   /\ G.n <= Tries(Mg1)
(* a message sent directly is never late: it arrives or is given up within the retry time *)
Direct == Mg1.kind = "p" => \A i \in DOMAIN s.g : LET G == s.g[i] IN
   /\ G.wake <= G.made + Tries(Mg1) * Mg1.rate + Mg1.send
   /\ G.st = "done" => (G.wake - G.made - Mg1.send) % Mg1.rate = 0 /\ (G.wake - G.made - Mg1.send) \div Mg1.rate = Len(G.log) - 1
   /\ G.st = "drop" => G.wake = G.made + Tries(Mg1) * Mg1.rate
(* the places of a routed message are a path of the network *)
Paths == Mg1.kind = "r" => \A i \in DOMAIN s.g : LET l == s.g[i].log IN
   /\ \A j \in 1..Len(l) - 1 : l[j][1] <= l[j + 1][1] /\ (l[j + 1][2] # l[j][2] => l[j + 1][2] = l[j][3])
   /\ \A j \in DOMAIN l : l[j][2] # l[j][3] => (<<l[j][2], l[j][3]>> \in s.m[1].net \/ l[j][3] = s.g[i].dst)
(* with nothing ever blocked it arrives after the fewest hops *)
Calm == QuietSoFar => \A i \in DOMAIN s.g : LET G == s.g[i] IN
   G.st = "done" => G.wake = G.made + Mg1.send * (IF Mg1.kind = "p" THEN 1 ELSE Dist(s.m[1].net, {G.src}, G.dst, 0))
(* a dropped or delivered message stays that way; others are not affected by what happens to one *)
Final == [][\A i \in DOMAIN s.g : s.g[i].st \in {"done", "drop"} => s'.g[i] = s.g[i]]_<<s, hist, pick>>
Frame == [][LET o == hist'[Len(hist')] IN (o.op # "advance" => \A i \in DOMAIN s.g : s'.g[i] = s.g[i])]_<<s, hist, pick>>
RECURSIVE Edges(_)
Edges(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<[op |-> "edge", m |-> 1, a |-> x[1], b |-> x[2], two |-> FALSE]>> \o Edges(S \ {x})
PrintProg == (Gen /\ Len(hist) = Depth /\ pick = 1) =>
   PrintT("PROGRAM " \o ToJson([u |-> 1, direct |-> (s.t = 1), n |-> 4, stores |-> [i \in 1..4 |-> [a |-> i, modes |-> <<"m">>, how |-> "list", listen |-> (i = 4)]],
                                mgrs |-> s.c.mgrs, ops |-> Edges(s.m[1].net) \o hist \o <<[op |-> "advance", v |-> 40]>>]))
=============================================================================

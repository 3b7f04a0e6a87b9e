------------------------------ MODULE TablesMC ------------------------------
(* One actor that records, one resource of its own and a free one, and the    *)
(* tables that can be made at any moment.                                     *)
EXTENDS Tables, Json
CONSTANTS Depth, Gen
VARIABLES t, val, on, hist, keys, q, prog
vars == <<t, val, on, hist, keys, q, prog>>
D(n, k, r, f) == [n |-> n, k |-> k, rec |-> r, fns |-> f]
Act == [id |-> 1, name |-> "A", kind |-> "K0",
        states |-> <<D("a", "plain", TRUE, <<"a_time">>), D("l", "active", TRUE, <<>>), D("p", "loc", TRUE, <<>>), D("k", "keyed", TRUE, <<>>), D("n", "plain", FALSE, <<>>), D("h", "held", FALSE, <<>>)>>]
E(v) == [t |-> t, k |-> "s", n |-> "", v |-> v, kv |-> <<>>]
M(m) == [t |-> t, k |-> "m", n |-> m, v |-> 0, kv |-> <<>>]
App(h, e) == IF h # <<>> /\ h[Len(h)] = e THEN h ELSE Append(h, e)
Names == {"a", "a_time", "l", "p", "k.p", "k.q"}
MCInit == /\ t = 0 /\ val = [a |-> 0, n |-> 5, l |-> 0, p |-> 0] /\ on = {} /\ keys = {"p"} /\ prog = <<>>
          /\ hist = [x \in Names |-> IF x = "k.q" THEN <<>> ELSE <<[t |-> 0, k |-> "s", n |-> "", v |-> 0, kv |-> <<>>]>>]
          /\ q = <<<<[t |-> 0, k |-> "s", n |-> "", v |-> 0, kv |-> <<>>]>>, <<[t |-> 0, k |-> "s", n |-> "", v |-> 0, kv |-> <<>>]>>>>
Idx == [a |-> 0, l |-> 1, p |-> 2, k |-> 3, n |-> 4]
O(op, s, x, key) == [op |-> op, a |-> 0, s |-> Idx[s], x |-> x, v |-> x, key |-> key, r |-> x, get |-> FALSE]
Next0(o) ==
  CASE o.op = "advance" -> t' = t + 2 /\ UNCHANGED <<val, on, hist, keys, q>> /\ UNCHANGED val
    [] o.op = "set" /\ o.s = 0 -> val' = [val EXCEPT !.a = o.x] /\ hist' = [hist EXCEPT !["a"] = App(@, E(o.x)), !["a_time"] = App(@, E(t))] /\ UNCHANGED <<t, on, keys, q>>
    [] o.op = "set" /\ o.s = 4 -> val' = [val EXCEPT !.n = o.x] /\ UNCHANGED <<t, on, hist, keys, q>>
    [] o.op = "set" /\ o.s = 3 -> keys' = keys \cup {o.key} /\ hist' = [hist EXCEPT !["k." \o o.key] = App(@, E(o.x))] /\ UNCHANGED <<t, val, on, q>>
    [] o.op = "raw" -> keys' = keys \ {o.key} /\ UNCHANGED <<t, val, on, hist, q>>
    [] o.op \in {"act", "deact", "look"} ->
       LET n == IF o.s = 1 THEN "l" ELSE "p"
           h == App(hist[n], E(IF n \in on THEN t ELSE val[n]))
       IN /\ hist' = [hist EXCEPT ![n] = CASE o.op = "act" -> Append(h, M("activating")) [] o.op = "deact" -> Append(h, M("deactivating")) [] OTHER -> h]
          /\ on' = IF o.op = "act" THEN on \cup {n} ELSE IF o.op = "deact" THEN on \ {n} ELSE on
          /\ val' = IF n = "l" THEN [val EXCEPT !.l = IF n \in on THEN t ELSE @] ELSE [val EXCEPT !.p = IF n \in on THEN t ELSE @]
          /\ UNCHANGED <<t, keys, q>>
    [] o.op = "res" -> q' = [q EXCEPT ![o.r + 1] = App(@, E(@[Len(@)].v + 1))] /\ UNCHANGED <<t, val, on, hist, keys>>
Ops == {O("set", "a", v, "") : v \in {0, 1}} \cup {O("set", "n", 7, "")} \cup {O("set", "k", v, k) : v \in {0, 1}, k \in {"p", "q"}} \cup {O("raw", "k", 1, "p")}
       \cup {O(w, s, 2, "") : w \in {"act", "deact", "look"}, s \in {"l", "p"}} \cup {O("res", "a", r, "") : r \in {0, 1}} \cup {[O("advance", "a", 0, "") EXCEPT !.v = 2]}
Useful(o) == CASE o.op = "act" -> (IF o.s = 1 THEN "l" ELSE "p") \notin on
               [] o.op \in {"deact", "look"} -> (IF o.s = 1 THEN "l" ELSE "p") \in on
               [] o.op = "raw" -> o.key \in keys
               [] o.op = "set" /\ o.s = 4 -> val.n # o.x
               [] OTHER -> TRUE
MCNext == Len(prog) < Depth /\ \E o \in Ops : Useful(o) /\ Next0(o) /\ prog' = Append(prog, o)
MCSpec == MCInit /\ [][MCNext]_vars
MCView == IF Gen THEN vars ELSE <<t, val, on, hist, keys, q, Len(prog)>>

Of(n) == IF n \in {"k.p", "k.q"} THEN "k" ELSE ""
Order == <<"a", "a_time", "l", "p", "k.p", "k.q">>
See == [hists |-> [i \in DOMAIN Order |-> [n |-> Order[i], of |-> Of(Order[i]), h |-> hist[Order[i]]]],
        vals |-> <<<<>>, <<>>, <<>>, <<>>, <<[n |-> "n", v |-> val.n]>>, <<>>>>, has |-> <<"a", "l", "p", "k", "n", "h">>]
Res == <<[name |-> "F1", kind |-> "C", by |-> <<>>, h |-> q[1]], [name |-> "", kind |-> "C", by |-> <<[id |-> 1, n |-> "h"]>>, h |-> q[2]]>>
S0 == [TablesInit([actors |-> <<>>, geo |-> FALSE]) EXCEPT !.actors = <<Act>>]
T(skip, static) == Table(S0, [see |-> <<See>>, res |-> Res, skip |-> skip, static |-> static])
Of_(rows, n) == SelectSeq(rows, LAMBDA r : r.n = n)
Plain(h) == SelectSeq(h, LAMBDA e : e.k = "s")
TV(q1) == [i \in DOMAIN q1 |-> <<q1[i].t, q1[i].v>>]
(* every recorded value has its row, in every table but the locations that are skipped *)
Complete == \A skip \in BOOLEAN, st \in BOOLEAN :
   /\ \A n \in Names : TV(Of_(T(skip, st), n)) = IF skip /\ n = "p" THEN <<>> ELSE TV(Plain(hist[n]))
   /\ TV(Of_(T(skip, st), "Resource")) = TV(q[1]) /\ TV(Of_(T(skip, st), "h")) = TV(q[2])
   /\ Len(Of_(T(skip, st), "n")) = IF st THEN 1 ELSE 0
(* and nothing else has one *)
Only == LET r == T(FALSE, TRUE) IN \A i \in DOMAIN r : r[i].n \in Names \cup {"n", "h", "Resource"}
(* the marks of activation: they alternate, and between them the state is active *)
Marks == \A n \in {"l", "p"} :
   LET r == Of_(T(FALSE, FALSE), n)
       marked == SelectSeq(r, LAMBDA x : x.st \in {"activating", "deactivating"})
   IN /\ Len(marked) = Len(SelectSeq(hist[n], LAMBDA e : e.k = "m"))
      /\ \A i \in DOMAIN marked : marked[i].st = IF i % 2 = 1 THEN "activating" ELSE "deactivating"
      /\ \A i \in DOMAIN r : i > 1 => CASE r[i].st = "active" -> r[i - 1].st \in {"active", "activating"}
                                        [] r[i].st = "inactive" -> r[i - 1].st \in {"inactive", "deactivating"} [] OTHER -> TRUE
Timely == LET r == T(FALSE, FALSE) IN \A n \in Names : LET o == Of_(r, n) IN \A i \in DOMAIN o : i > 1 => o[i - 1].t <= o[i].t
(* the location table has the rows that the table without skipping has for the locations *)
Locs == LocRows(Act, See) = Of_(T(FALSE, FALSE), "p")
PrintProg == (Gen /\ Len(prog) = Depth) => PrintT("PROGRAM " \o ToJson([ops |-> prog]))
=============================================================================

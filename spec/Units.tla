------------------------------- MODULE Units --------------------------------
(* Waits with units, the formatted clock, and conversions.  Physical times    *)
(* are seconds, physical lengths tenths of a millimetre; values vn/vd.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
Secs == [s |-> 1, min |-> 60, hr |-> 3600, day |-> 86400, week |-> 604800]
Len10 == [m |-> 10000, km |-> 10000000, mi |-> 16093440, nmi |-> 18520000, ft |-> 3048]
(* accepted spellings, lower case *)
Canon == [s |-> "s", second |-> "s", seconds |-> "s", min |-> "min", minute |-> "min", minutes |-> "min", hr |-> "hr", hour |-> "hr", hours |-> "hr",
          day |-> "day", days |-> "day", week |-> "week", weeks |-> "week"]
IsTime(u) == u \in DOMAIN Canon
S(u) == Secs[Canon[u]]
AbsI(a) == IF a < 0 THEN -a ELSE a
UnitsInit(cfg) == [err |-> "", kf |-> ""]

(* observed physical seconds on / od *)
IsSecs(e, secs, den) == e.on * den = secs * e.od

Wait(s, e) ==
  IF e.unit = "" THEN
     IF Err(e) THEN Fail(s, "a wait without a unit failed") ELSE IF ~IsSecs(e, e.vn, e.vd) THEN Fail(s, "a wait without a unit does not last its number") ELSE s
  ELSE IF e.su = "" THEN IF ~Err(e) /\ ~IsSecs(e, e.vn, e.vd) /\ ~(IsTime(e.unit) /\ IsSecs(e, e.vn * S(e.unit), 3600 * e.vd)) THEN Fail(s, "a wait on a stage without a unit lasts a wrong time") ELSE s
  ELSE IF ~IsTime(e.unit) \/ ~IsTime(e.su) THEN IF e.exc = "ValueError" THEN s ELSE Fail(s, "an unknown unit was passed through")
  ELSE IF Err(e) THEN Fail(s, "a wait with a unit failed: " \o e.exc)
  ELSE IF ~IsSecs(e, e.vn * S(e.unit), e.vd) THEN Fail(s, "a wait with a unit does not last its time")
  ELSE s
(* for a wait without a unit, or a stage without one, on/od is in clock units; otherwise the driver gives seconds *)

Clock(s, e) ==
  IF Err(e) THEN Fail(s, "formatting the clock failed: " \o e.exc)
  ELSE IF e.su = "" \/ (IsTime(e.su) /\ Canon[e.su] \in {"s", "min", "hr"}) THEN
     \* e.half is the clock in half seconds
     LET t == e.half \div 2 IN
     IF e.kind # "hms" THEN Fail(s, "the clock has the wrong form")
     ELSE IF e.d # t \div 86400 THEN Fail(s, "the clock shows the wrong day")
     ELSE IF <<e.h, e.mi, e.sec>> # <<(t % 86400) \div 3600, (t % 3600) \div 60, t % 60>> THEN Fail(s, "the clock shows the wrong time of day") ELSE s
  ELSE IF e.daily = 0 THEN
     IF e.kind # "plain" \/ e.milli # e.quarter * 250 THEN Fail(s, "the clock shows the wrong number") ELSE s
  ELSE \* e.quarter: the clock in quarters of the unit; e.daily: units in a day, in quarters
     IF e.kind # "days" THEN Fail(s, "the clock has the wrong form")
     ELSE IF e.d # e.quarter \div e.daily \/ e.milli # (e.quarter % e.daily) * 250 THEN Fail(s, "the clock shows the wrong day or remainder") ELSE s

Conv(s, e) ==
  LET time == IsTime(e.from) /\ IsTime(e.to)
      dist == e.from \in DOMAIN Len10 /\ e.to \in DOMAIN Len10 IN
  IF ~time /\ ~dist THEN IF e.exc = "ValueError" THEN s ELSE Fail(s, "a conversion between units that do not go together was passed through")
  ELSE IF Err(e) THEN Fail(s, "a conversion failed: " \o e.exc)
  ELSE IF e.back # <<e.vn, e.vd>> THEN Fail(s, "converting there and back does not give the same value")
  ELSE IF time THEN IF IsSecs(e, e.vn * S(e.from), e.vd) THEN s ELSE Fail(s, "a conversion of time is wrong")
  ELSE LET x == e.vn * Len10[e.from] IN IF AbsI(e.ten * e.vd - x) <= x \div 500000 + e.vd THEN s ELSE Fail(s, "a conversion of length is wrong")

UnitsStep(s, e) ==
  CASE e.op = "wait" -> Wait(s, e)
    [] e.op = "clock" -> Clock(s, e)
    [] e.op = "conv" -> Conv(s, e)
    [] OTHER -> Fail(s, "unknown operation " \o e.op)
=============================================================================

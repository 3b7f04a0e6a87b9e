----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic trace checker.  A subsystem specification supplies the initial  *)
(* abstract state for a configuration and a step operator that maps an     *)
(* abstract state and a recorded event to the next abstract state.  The    *)
(* state is a record with at least the fields `err` (name of the violated  *)
(* clause, "" if none) and `kf` (label of a known deviation taken in this  *)
(* very step, "" if none).  One TLC state per consumed event; the verdict  *)
(* is total: a rejected event ends its trace and is reported by clause.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS SpecInit(_), SpecStep(_, _)

VARIABLES tid, pos, st

Traces == JsonDeserialize(IOEnv.TRACES)

Init == /\ tid \in 1..Len(Traces)
        /\ pos = 0
        /\ st = SpecInit(Traces[tid].cfg)

Next == /\ pos < Len(Traces[tid].ev)
        /\ st.err = ""
        /\ LET e == Traces[tid].ev[pos + 1]
           IN  st' = IF e.bad # "" THEN [st EXCEPT !.err = "unexpected observation: " \o e.bad]
                     ELSE SpecStep([st EXCEPT !.kf = ""], e)
        /\ pos' = pos + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, pos, st>>

View == <<tid, pos>>

Report == /\ \/ st.err = ""
             \/ PrintT(<<"VERDICT", tid, pos, st.err>>)
          /\ \/ st.kf = ""
             \/ PrintT(<<"KNOWN", tid, pos, st.kf>>)
=============================================================================

----------------------------- MODULE KeyedTrace -----------------------------
EXTENDS Keyed, TraceCheck
=============================================================================

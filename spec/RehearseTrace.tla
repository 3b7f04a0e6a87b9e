----------------------------- MODULE RehearseTrace -----------------------------
EXTENDS Rehearse, TraceCheck
=============================================================================

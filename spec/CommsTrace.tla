----------------------------- MODULE CommsTrace -----------------------------
EXTENDS Comms, TraceCheck
=============================================================================

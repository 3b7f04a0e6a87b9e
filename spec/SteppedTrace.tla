----------------------------- MODULE SteppedTrace -----------------------------
EXTENDS Stepped, TraceCheck
=============================================================================

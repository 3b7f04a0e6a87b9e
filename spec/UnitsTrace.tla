----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units, TraceCheck
=============================================================================

----------------------------- MODULE CoreTrace ------------------------------
EXTENDS Core, TraceCheck
=============================================================================

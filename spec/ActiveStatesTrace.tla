------------------------- MODULE ActiveStatesTrace -------------------------
EXTENDS ActiveStates, TraceCheck
=============================================================================

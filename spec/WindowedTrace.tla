--------------------------- MODULE WindowedTrace ---------------------------
EXTENDS Windowed, TraceCheck
=============================================================================

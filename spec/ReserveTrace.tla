---------------------------- MODULE ReserveTrace ----------------------------
EXTENDS Reserve, TraceCheck
=============================================================================

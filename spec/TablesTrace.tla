----------------------------- MODULE TablesTrace -----------------------------
EXTENDS Tables, TraceCheck
=============================================================================

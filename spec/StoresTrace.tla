----------------------------- MODULE StoresTrace -----------------------------
EXTENDS Stores, TraceCheck
=============================================================================

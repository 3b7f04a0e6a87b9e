----------------------------- MODULE GlobeTrace -----------------------------
EXTENDS Globe, TraceCheck
=============================================================================

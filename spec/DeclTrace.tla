----------------------------- MODULE DeclTrace ------------------------------
EXTENDS Decl, TraceCheck
=============================================================================

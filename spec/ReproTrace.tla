----------------------------- MODULE ReproTrace -----------------------------
EXTENDS Repro, TraceCheck
=============================================================================

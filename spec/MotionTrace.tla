----------------------------- MODULE MotionTrace -----------------------------
EXTENDS Motion, TraceCheck
=============================================================================

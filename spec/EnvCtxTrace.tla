----------------------------- MODULE EnvCtxTrace ----------------------------
EXTENDS EnvCtx, TraceCheck
=============================================================================

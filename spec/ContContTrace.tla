--------------------------- MODULE ContContTrace ----------------------------
EXTENDS ContCont, TraceCheck
=============================================================================

----------------------------- MODULE PlacesTrace ----------------------------
EXTENDS Places, TraceCheck
=============================================================================

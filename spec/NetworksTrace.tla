---------------------------- MODULE NetworksTrace ----------------------------
EXTENDS Networks, TraceCheck
=============================================================================

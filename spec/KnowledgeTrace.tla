--------------------------- MODULE KnowledgeTrace ---------------------------
EXTENDS Knowledge, TraceCheck
=============================================================================

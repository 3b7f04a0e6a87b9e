SPECIFICATION Spec
CONSTANTS
  SpecInit <- KnowledgeInit
  SpecStep <- KnowledgeStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- JudgeInterleave
  Uses <- Catalogue
  Threads <- MThreads
  Phases <- MPhases
  Flaw <- NoFlaw

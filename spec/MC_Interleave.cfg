INIT Init
NEXT Next
CONSTANTS
  Threads <- MThreads
  Uses <- MUses
  Phases <- MPhases
  Flaw <- MFlaw
INVARIANTS SharedInv AloneInv FreeInv EmitInv
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS FrameInv PotentialInv OrthoInv HomInv
CHECK_DEADLOCK FALSE

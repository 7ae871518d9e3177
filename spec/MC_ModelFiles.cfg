INIT Init
NEXT Next
INVARIANTS IgrfInv PadInv EndInv
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS CrashInv ReadInv BreakInv UniqueInv LabelInv LinInv
CHECK_DEADLOCK FALSE

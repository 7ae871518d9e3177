INIT Init
NEXT Next
INVARIANTS CountInv YearInv Anchor LenInv Period DyInv
CHECK_DEADLOCK FALSE

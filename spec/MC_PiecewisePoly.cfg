INIT Init
NEXT Next
INVARIANTS InsideInv DerivInv BreakInv ZeroInv OffInv FullInv DegInv JoinInv
CHECK_DEADLOCK FALSE

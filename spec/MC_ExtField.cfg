INIT Init
NEXT Next
INVARIANTS AddInv AffineInv SameInv HalfInv CutInv RCInv BaseInv
CHECK_DEADLOCK FALSE

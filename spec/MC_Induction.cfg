INIT Init
NEXT Next
INVARIANTS BoundInv SplitInv OdeInv LimitInv
CHECK_DEADLOCK FALSE

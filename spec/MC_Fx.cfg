INIT Init
NEXT Next
INVARIANTS Pyth RadDeg Double Quarter Half Arc ExpLaw SqrtLaw
CHECK_DEADLOCK FALSE

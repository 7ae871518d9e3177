INIT Init
NEXT Next
INVARIANTS BindInv SigInv EmitInv
CHECK_DEADLOCK FALSE

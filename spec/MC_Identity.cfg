INIT Init
NEXT Next
INVARIANTS NameInv FileInv StemInv EmitInv
CHECK_DEADLOCK FALSE

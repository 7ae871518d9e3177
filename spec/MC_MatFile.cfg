INIT Init
NEXT Next
INVARIANTS SameInv DiskInv NameInv
CHECK_DEADLOCK FALSE

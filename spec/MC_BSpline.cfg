INIT Init
NEXT Next
INVARIANTS KnotInv PartitionInv NonNegInv DerivSumInv SupportInv TaylorInv
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT RingLaws
INVARIANT DivLaws
INVARIANT ShiftLaws
INVARIANT SqrtLaws
INVARIANT Digest
CHECK_DEADLOCK FALSE

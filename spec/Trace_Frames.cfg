INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Judge <- JudgeFr

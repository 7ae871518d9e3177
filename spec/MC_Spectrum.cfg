INIT Init
NEXT Next
INVARIANTS MeanSquareInv CorrInv SensInv
CHECK_DEADLOCK FALSE

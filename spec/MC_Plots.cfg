INIT Init
NEXT Next
INVARIANTS PanelInv UserInv NoneInv NmaxInv UnitsInv
PROPERTIES GrowProp
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS ExplicitInv AdditionInv QInv ParityInv GradInv PoleInv
CHECK_DEADLOCK FALSE

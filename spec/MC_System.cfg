INIT Init
NEXT Next
CONSTANTS
  Uses <- MUses
  Alias <- Shared
INVARIANTS OwnerInv HeldInv SameInv ApartInv EmitInv
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS TypeInv ResetInv FullInv LoadInv StackInv EmitInv
PROPERTIES FrameProp OneKeyProp ExitProp
CHECK_DEADLOCK FALSE

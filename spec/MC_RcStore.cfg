INIT Init
NEXT Next
INVARIANTS TruthInv AnswerInv FolderInv EmitInv
PROPERTIES FrameProp
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- JudgeSystem
  Uses <- Catalogue
  Alias <- NoAlias

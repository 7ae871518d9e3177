INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- JudgeC

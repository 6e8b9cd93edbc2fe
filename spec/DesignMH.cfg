SPECIFICATION Spec
CONSTANTS
  ODD = 2
  LATER = 1
INVARIANTS OnlyGood Answer NoEffect Order Answered Names
CHECK_DEADLOCK FALSE

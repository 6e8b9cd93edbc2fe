SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Tokens = {"S", "L", "R", "E", "C", "0", "a", "n", "c", "r", "K", "1", "2", "X", "Y", "p"}
  Starts = {"", "SL", "SLaC", "SLLa0", "SLKC2L", "SLKCYLL", "SRLaC1LKC", "SLaCaLKC1LKC2LLr0", "SLKC"}
INVARIANT Chunks
PROPERTY Grows
CHECK_DEADLOCK FALSE

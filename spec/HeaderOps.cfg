SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Keys = {"a", "A"}
  Inits = {"e", "o", "m", "d"}
  Self = TRUE
INVARIANT Accessors
PROPERTY Apart
CHECK_DEADLOCK FALSE

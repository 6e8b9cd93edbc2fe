SPECIFICATION Spec
CONSTANTS
  ODD = 3
INVARIANTS Permits Forbids Waits
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  ODD = 2
INVARIANTS Permits Forbids Waits
CHECK_DEADLOCK FALSE

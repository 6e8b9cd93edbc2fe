SPECIFICATION Spec
CONSTANTS
  ODD = 2
  LATER = 2
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  ODD = 2
  LATER = 1
VIEW View
CHECK_DEADLOCK FALSE

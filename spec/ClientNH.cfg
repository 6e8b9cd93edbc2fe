SPECIFICATION OnlyInit
CONSTANTS
  ODD = 2
CHECK_DEADLOCK FALSE

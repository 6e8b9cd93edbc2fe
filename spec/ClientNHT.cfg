SPECIFICATION OnlyInit
CONSTANTS
  ODD = 3
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NC = 3
  STEPS = 6
  INBOX = 1
  DROPS = 1
  FAULTS = FALSE
  EAGER = FALSE
  MENU <- MenuEnd
VIEW View
INVARIANTS Settles
CHECK_DEADLOCK FALSE

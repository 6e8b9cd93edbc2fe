SPECIFICATION Spec
CONSTANTS
  NC = 2
  STEPS = 7
  INBOX = 1
  DROPS = 0
  FAULTS = FALSE
  EAGER = FALSE
  MENU <- MenuAck
VIEW View
INVARIANTS Settles
CHECK_DEADLOCK FALSE

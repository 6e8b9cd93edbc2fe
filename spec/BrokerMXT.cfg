SPECIFICATION Spec
CONSTANTS
  NC = 2
  STEPS = 6
  INBOX = 1
  DROPS = 0
  FAULTS = TRUE
  EAGER = FALSE
  MENU <- MenuTx
VIEW View
INVARIANTS Settles
CHECK_DEADLOCK FALSE

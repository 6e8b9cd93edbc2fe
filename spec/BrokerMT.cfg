SPECIFICATION Spec
CONSTANTS
  NC = 2
  STEPS = 6
  INBOX = 1
  DROPS = 1
  FAULTS = FALSE
  EAGER = FALSE
  MENU <- MenuTopic
VIEW View
INVARIANTS Settles
CHECK_DEADLOCK FALSE

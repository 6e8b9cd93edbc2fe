SPECIFICATION Spec
CONSTANTS
  NC = 2
  STEPS = 4
  INBOX = 2
  DROPS = 1
  FAULTS = FALSE
  EAGER = TRUE
  MENU <- MenuAck
VIEW View
INVARIANTS OnePlace Final Idle Fifo BackFirst OneOrder TxHidden Settles
PROPERTIES OnlyConsumed Rests
CHECK_DEADLOCK FALSE

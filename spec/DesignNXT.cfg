SPECIFICATION Spec
CONSTANTS
 MENU = {"begin", "txsend", "commit", "commitr", "rcpt", "err"}
 STEPS = 4
 EAGER = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted InOrder Complete Delivered Closing Confirmed Once Order Written Silence Refused Released OneUnsub Shut TxOver Acks

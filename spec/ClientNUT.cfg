SPECIFICATION Spec
CONSTANTS
 MENU = {"sub", "unsub", "msg", "rcpt", "tick", "eof"}
 STEPS = 7
 EAGER = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted InOrder Complete Delivered Closing Confirmed Once Order Written Silence Refused Released OneUnsub Shut TxOver Acks Script

SPECIFICATION Spec
CONSTANTS
 MENU = {"send", "sendr", "sub", "unsub", "msg", "rcpt", "disc"}
 STEPS = 5
 EAGER = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted InOrder Complete Delivered Closing Confirmed Once Order Written Silence Refused Released OneUnsub Shut TxOver Acks Script

SPECIFICATION Spec
CONSTANTS
 MENU = {"sub", "sendr", "disc", "must", "err", "eof", "rcpt", "reset", "active"}
 STEPS = 5
 EAGER = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted InOrder Complete Delivered Closing Confirmed Once Order Written Silence Refused Released OneUnsub Shut TxOver Acks Script

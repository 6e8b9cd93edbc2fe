SPECIFICATION Spec
CONSTANTS
 MENU = {"subc", "msg", "ack", "nack"}
 STEPS = 3
 EAGER = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted InOrder Complete Delivered Closing Confirmed Once Order Written Silence Refused Released OneUnsub Shut TxOver Acks

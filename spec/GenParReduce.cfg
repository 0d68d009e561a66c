SPECIFICATION Spec
CONSTANTS MaxN = 8
 Threads = {2, 4, 8}
 Gen = 1
INVARIANTS AtMostOnce
CHECK_DEADLOCK FALSE

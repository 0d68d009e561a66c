SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Depth = 12
 Handles = {1, 2, 3}
 Gen = 2
INVARIANTS Conserve
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Depth = 3
 Handles = {1, 2}
 Gen = 1
INVARIANTS Conserve
VIEW View
CHECK_DEADLOCK FALSE

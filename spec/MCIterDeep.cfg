SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Depth = 7
 Handles = {1, 2}
 Gen = 0
INVARIANTS Conserve Exhausted NthIsNexts
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Depth = 5
 Handles = {1, 2}
 Gen = 0
INVARIANTS Conserve Exhausted NthIsNexts
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 7
 Threads = {1, 2, 4, 7}
 Gen = 0
INVARIANTS Tiling AtMostOnce WorkersBound InOrder Result
PROPERTIES Returns
VIEW View
CHECK_DEADLOCK FALSE

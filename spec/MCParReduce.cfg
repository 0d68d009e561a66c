SPECIFICATION Spec
CONSTANTS MaxN = 5
 Threads = {1, 2, 3}
 Gen = 0
INVARIANTS Tiling AtMostOnce WorkersBound InOrder Result
PROPERTIES Returns
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Fams <- GFs
 MaxN = 7
 Bounds <- BoundSet
 Seeds = {1, 2, 3, 4}
 MaxPerm = 5
INVARIANTS Turned Inside Clustered Accepts AnyOrder Rejects Empty
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Fams <- GFs
 MaxN = 5
 Bounds <- FewBounds
 Seeds = {1, 2}
 MaxPerm = 5
INVARIANTS Turned Inside Clustered Accepts AnyOrder Rejects Empty
CHECK_DEADLOCK FALSE

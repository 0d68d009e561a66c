SPECIFICATION Spec
CONSTANTS Fams <- NCs
 MaxN = 8
 Bounds <- BoundSet
 Seeds = {1, 2, 3}
 MaxPerm = 6
INVARIANTS PolyExact NotBeyond CoefSum Turned Inside Adjoin Clustered Accepts AnyOrder Rejects Empty
CHECK_DEADLOCK FALSE

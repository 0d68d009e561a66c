SPECIFICATION Spec
CONSTANTS Fams <- NCs
 MaxN = 5
 Bounds <- BoundSet
 Seeds = {1}
 MaxPerm = 4
INVARIANTS PolyExact NotBeyond CoefSum Turned Inside Adjoin Clustered Accepts AnyOrder Rejects Empty
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Cases <- AllCases
 MaxN = 16
INVARIANTS Exactness Sharp Interlaced Symmetric Mirrored NodeInfoRight LegendreClosed LegendreAsymptotic ChebClosed Special Accepts Rejects RejectsShape Gamma
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Cases <- ChebCases
 MaxN = 9
INVARIANTS Exactness Sharp Interlaced Symmetric Mirrored NodeInfoRight LegendreClosed LegendreAsymptotic ChebClosed Special Accepts Rejects RejectsShape Gamma
CHECK_DEADLOCK FALSE

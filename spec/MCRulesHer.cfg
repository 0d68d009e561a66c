SPECIFICATION Spec
CONSTANTS Cases <- HerCases
 MaxN = 9
INVARIANTS Exactness Sharp Interlaced Symmetric Mirrored NodeInfoRight LegendreClosed LegendreAsymptotic ChebClosed Special Accepts Rejects RejectsShape Gamma
CHECK_DEADLOCK FALSE

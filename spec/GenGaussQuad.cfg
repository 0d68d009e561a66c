SPECIFICATION Spec
CONSTANTS RuleSlots = {1, 2, 3}
 IterSlots = {1, 2}
 ParamSlots = {1}
 Fams = {"Legendre", "Jacobi", "Laguerre", "Hermite", "Cheb1", "Cheb2", "Midpoint", "Simpson", "Trapezoid"}
 Degs = {1, 2, 3, 6}
 Pars = {1, 2}
 Depth = 24
 MaxFrames = 0
 Gen = 1
 Items <- MCItems
INVARIANTS ValueSemantics IterWindows
CHECK_DEADLOCK FALSE

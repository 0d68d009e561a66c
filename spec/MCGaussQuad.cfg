SPECIFICATION Spec
CONSTANTS RuleSlots = {1, 2}
 IterSlots = {1}
 ParamSlots = {1}
 Fams = {"Legendre", "Laguerre", "Trapezoid"}
 Degs = {1, 2}
 Pars = {1, 2}
 Depth = 4
 MaxFrames = 2
 Gen = 0
 Items <- MCItems
INVARIANTS ValueSemantics IterWindows EachOnce Finished
PROPERTIES ReadsAreReads FaultIsLocal
VIEW View
CHECK_DEADLOCK FALSE

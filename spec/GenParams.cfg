SPECIFICATION Spec
CONSTANTS Starts <- SomeStarts
 Operands <- AllOperands
 Depth = 12
 Gen = 1
INVARIANTS AlwaysValid Refused
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Starts <- SomeStarts
 Operands <- AllOperands
 Depth = 3
 Gen = 0
INVARIANTS AlwaysValid Refused RoundTrip AddNearest MulNearest DivNearest Special PowLaws TextExact TextHalfway Grammar
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Wide = FALSE
INVARIANTS Chained Emitted
PROPERTIES OnlyOutputs

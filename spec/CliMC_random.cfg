SPECIFICATION RandSpec
CONSTANTS MaxLen = 8
 Wide = TRUE
INVARIANTS Chained Emitted
PROPERTIES OnlyOutputs

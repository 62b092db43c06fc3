SPECIFICATION Spec
VIEW FsView
CONSTANTS MaxLen = 3
 Wide = FALSE
INVARIANTS Chained Emitted
PROPERTIES OnlyOutputs

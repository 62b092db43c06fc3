SPECIFICATION Spec
INVARIANT Inv
PROPERTY Steps
CONSTRAINT Bound
VIEW View
CONSTANTS Names = {"a", "b"} MaxFirst = 2 MaxCount = 2 MaxLen = 2

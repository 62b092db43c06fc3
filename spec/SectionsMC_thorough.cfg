SPECIFICATION Spec
INVARIANT Inv
PROPERTY Steps
CONSTRAINT Bound
VIEW View
CONSTANTS Names = {"a", "b"} MaxFirst = 3 MaxCount = 2 MaxLen = 3

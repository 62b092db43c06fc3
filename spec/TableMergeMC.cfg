SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANTS Rows = 2 Cols = 3 MaxSpan = 3 Depth = 2

SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANTS Rows = 3 Cols = 3 MaxSpan = 3 Depth = 3

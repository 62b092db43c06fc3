SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stable
VIEW View
CONSTANTS People = {"ann", "bob"} Slides = 2 MaxComments = 4

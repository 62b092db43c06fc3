SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANTS Types = {"Slide", "Image"} ExplicitNums = {1, 2, 5} MaxLen = 4

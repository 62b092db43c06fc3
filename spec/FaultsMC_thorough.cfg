SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxFaults = 3
INVARIANTS Answers CutIsRefused IntactIsAccepted Accounted Emitted
PROPERTIES Contained
CHECK_DEADLOCK FALSE

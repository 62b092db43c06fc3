SPECIFICATION Spec
CONSTANTS MaxN = 2 MaxFaults = 2
INVARIANTS Answers CutIsRefused IntactIsAccepted Accounted Emitted
PROPERTIES Contained
CHECK_DEADLOCK FALSE

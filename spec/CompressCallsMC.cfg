SPECIFICATION Spec
CONSTANTS Calls = {1,2,3,4}
 Shared = FALSE
INVARIANT OwnResult

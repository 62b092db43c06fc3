SPECIFICATION Spec
CONSTANTS N = 3
 MaxDamage = 3
 Emit = TRUE
INVARIANTS Sound Idempotent NothingLost Untouched Reported Emitted

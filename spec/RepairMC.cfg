SPECIFICATION Spec
CONSTANTS N = 3
 MaxDamage = 2
 Emit = TRUE
INVARIANTS Sound Idempotent NothingLost Untouched Reported Emitted

SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS Consistent Types Within RefsLeft KeptUses Again Emitted

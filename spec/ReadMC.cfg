SPECIFICATION Spec
INVARIANTS Stable Faithful MarksKept Emitted
CONSTANTS
  MaxLen = 2
  Toks = {"amp", "lt", "sp", "ent", "ascii", "uni"}
  MaxHops = 2
  Emit = TRUE

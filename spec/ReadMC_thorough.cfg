SPECIFICATION Spec
INVARIANTS Stable Faithful MarksKept Emitted
CONSTANTS
  MaxLen = 3
  Toks = {"amp", "lt", "sp", "ent", "ascii", "uni", "quot", "gt", "astral", "cdata"}
  MaxHops = 3
  Emit = TRUE

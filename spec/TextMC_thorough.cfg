SPECIFICATION Spec
INVARIANTS BulletsKept Emitted
CONSTANTS
  Kind = "text"
  MaxLen = 3
  Toks = {"amp", "lt", "gt", "quot", "apos", "sp", "ent", "cdata", "ascii", "uni", "astral", "dollar"}
  Ops = {}
  Layouts = {}

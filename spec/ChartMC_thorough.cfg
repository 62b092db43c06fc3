SPECIFICATION Spec
INVARIANTS SeriesKept Emitted
CONSTANTS
  Kind = "chart"
  MaxLen = 6
  Toks = {}
  Ops = {}
  Layouts = {}

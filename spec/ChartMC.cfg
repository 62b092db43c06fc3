SPECIFICATION Spec
INVARIANTS SeriesKept Emitted
CONSTANTS
  Kind = "chart"
  MaxLen = 3
  Toks = {}
  Ops = {}
  Layouts = {}

SPECIFICATION Spec
INVARIANTS TableSane Emitted
CONSTANTS
  Kind = "table"
  MaxLen = 3
  Toks = {}
  Ops = {}
  Layouts = {}

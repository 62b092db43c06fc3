SPECIFICATION Spec
INVARIANTS TableSane Emitted
CONSTANTS
  Kind = "table"
  MaxLen = 2
  Toks = {}
  Ops = {}
  Layouts = {}

SPECIFICATION Spec
INVARIANTS BulletsKept Emitted
CONSTANTS
  Kind = "bullets"
  MaxLen = 5
  Toks = {}
  Ops = {"add", "style", "styled", "num", "let", "sub", "raw"}
  Layouts = {"TitleAndContent", "TwoColumn", "TitleAndBigContent"}

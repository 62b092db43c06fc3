SPECIFICATION Spec
INVARIANTS Closedness NoPartTwice Bound OwnParts Emitted
CONSTANTS
  MaxSlides = 3
  Pics = {}
  MaxCharts = 0
  Links = {"none"}
  Emit = TRUE
  Opts = {"handout", "fonts", "sig", "theme", "show", "print"}

SPECIFICATION Spec
INVARIANTS Closedness NoPartTwice Bound OwnParts Emitted
CONSTANTS
  MaxSlides = 2
  Pics = {"A", "Aj"}
  MaxCharts = 1
  Links = {"none", "slide"}
  Emit = TRUE
  Opts = {}

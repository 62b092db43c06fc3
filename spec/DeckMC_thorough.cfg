SPECIFICATION Spec
INVARIANTS Closedness NoPartTwice Bound OwnParts Emitted
CONSTANTS
  MaxSlides = 2
  Pics = {"A", "Aj", "B"}
  MaxCharts = 2
  Links = {"none", "url", "slide"}
  Emit = TRUE
  Opts = {}

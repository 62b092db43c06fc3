SPECIFICATION TraceSpec
VIEW View
CONSTANTS
  Judge <- BJudge
  Start <- BStart

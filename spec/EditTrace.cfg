SPECIFICATION TraceSpec
VIEW View
CONSTANTS
  Judge <- EJudge
  Start <- EStart

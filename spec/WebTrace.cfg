SPECIFICATION TraceSpec
VIEW View
CONSTANTS Judge <- WJudge
 Start <- WStart

SPECIFICATION TraceSpec
VIEW View
CONSTANTS Judge <- RJudge
 Start <- RStart

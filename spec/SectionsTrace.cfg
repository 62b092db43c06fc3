SPECIFICATION TraceSpec
VIEW View
CONSTANTS
 Judge <- SJudge
 Start <- SStart

SPECIFICATION TraceSpec
VIEW View
CONSTANTS
 Judge <- CJudge
 Start <- CStart

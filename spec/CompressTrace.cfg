SPECIFICATION TraceSpec
VIEW View
CONSTANTS Judge <- KJudge
 Start <- KStart

SPECIFICATION TraceSpec
VIEW View
CONSTANTS
 Judge <- PkJudge
 Start <- PkStart

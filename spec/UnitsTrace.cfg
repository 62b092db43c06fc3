SPECIFICATION TraceSpec
VIEW View
CONSTANTS
 Judge <- UJudge
 Start <- UStart

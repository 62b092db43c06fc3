SPECIFICATION TraceSpec
VIEW View
CONSTANTS
 Judge <- TMJudge
 Start <- TMStart

SPECIFICATION TraceSpec
VIEW View
CONSTANTS Judge <- DJudge
 Start <- DStart

SPECIFICATION Spec
VIEW View
CONSTANTS TraceFile = "/tmp/w/tr.ndjson"
 Judge = 0
CHECK_DEADLOCK FALSE

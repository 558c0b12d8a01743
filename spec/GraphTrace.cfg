SPECIFICATION TraceSpec
CONSTANTS
  Points = {}
  NodeData = {}
  EdgeData = {}
  MaxNodes = 0
  MaxEdges = 0
  TraceFile = "/tmp/g.ndjson"
  Prop = "G02"
CHECK_DEADLOCK FALSE

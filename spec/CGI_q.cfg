SPECIFICATION ISpec
CONSTANTS
  Points <- Triangle
  NodeData = {1}
  EdgeData = {1}
  MaxNodes = 5
  MaxEdges = 8
  OutOfRange = TRUE
CONSTRAINT ISmall
VIEW View
ACTION_CONSTRAINT ContractHolds
INVARIANTS Planar
PROPERTIES RefinesCreaseGraph
CHECK_DEADLOCK FALSE

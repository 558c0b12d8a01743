SPECIFICATION GSpec
CONSTANTS
  Points <- Corners
  NodeData = {1}
  EdgeData = {1, 2}
  MaxNodes = 5
  MaxEdges = 8
CONSTRAINT Small
VIEW GView
ACTION_CONSTRAINT GPrint
CHECK_DEADLOCK FALSE

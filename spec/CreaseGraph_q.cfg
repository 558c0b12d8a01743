SPECIFICATION Spec
CONSTANTS
  Points <- QuincunxC
  NodeData = {1}
  EdgeData = {1, 2}
  MaxNodes = 5
  MaxEdges = 8
CONSTRAINT Small
INVARIANTS AlwaysPlanar AddNodePreserves AddEdgePreserves RemovePreserves
CHECK_DEADLOCK FALSE

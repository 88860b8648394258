SPECIFICATION Spec
CONSTANTS
  Goods = {"g1"}
  Bads = {}
  Heads = {"h1", "h2"}
  Bodies = {}
  Min = 2
  Workers = 2
  Nudges = FALSE
  Mistake = "none"
INVARIANT Once
PROPERTY Served
CHECK_DEADLOCK FALSE

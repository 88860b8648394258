SPECIFICATION Spec
CONSTANTS
  Goods = {"g1"}
  Bads = {"b1"}
  Heads = {"h1"}
  Bodies = {}
  Min = 1
  Workers = 2
  Nudges = TRUE
  Mistake = "none"
INVARIANT Once
PROPERTY Served
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Goods = {"g1"}
  Bads = {"b1", "b2"}
  Heads = {}
  Bodies = {}
  Min = 2
  Workers = 2
  Nudges = TRUE
  Mistake = "dies"
INVARIANT Once
PROPERTY Served
CHECK_DEADLOCK FALSE

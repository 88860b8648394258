SPECIFICATION Spec
CONSTANTS
  Goods = {"g1"}
  Bads = {"b1"}
  Heads = {}
  Bodies = {"s1"}
  Min = 1
  Workers = 2
  Nudges = TRUE
  Mistake = "none"
INVARIANT Once
PROPERTY Served
CHECK_DEADLOCK FALSE

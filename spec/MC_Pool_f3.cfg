SPECIFICATION Spec
CONSTANTS
  Goods = {"g1"}
  Bads = {"b1"}
  Heads = {}
  Bodies = {"s1"}
  Min = 2
  Workers = 2
  Nudges = TRUE
  Mistake = "serial"
INVARIANT Once
PROPERTY Served
CHECK_DEADLOCK FALSE

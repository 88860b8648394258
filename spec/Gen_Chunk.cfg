SPECIFICATION Spec
CONSTANTS
  Store = "sled"
  Index = "sled"
  Times = {1, 2, 3}
  MaxOps = 6
  MaxFaults = 3
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS One Sound Found Intact Again Prefix
CHECK_DEADLOCK FALSE

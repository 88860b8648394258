SPECIFICATION Spec
CONSTANTS
  Store = "sled"
  Index = "sled"
  Times = {1, 2}
  MaxOps = 3
  MaxFaults = 1
  Mistake = "no link"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS One Sound Found Intact Again Prefix
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Store = "tikv"
  Index = "tikv"
  Times = {1, 2}
  MaxOps = 3
  MaxFaults = 2
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS One Sound Found Intact Again Prefix
CHECK_DEADLOCK FALSE

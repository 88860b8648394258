SPECIFICATION Spec
CONSTANTS
  Shared = TRUE
  MaxChunks = 4
  MaxDeaths = 3
  MaxFaults = 2
  Mistake = "strict"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Opens Keeps Honest
CHECK_DEADLOCK FALSE

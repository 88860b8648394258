SPECIFICATION Spec
CONSTANTS
  Shared = TRUE
  MaxChunks = 9
  MaxDeaths = 4
  MaxFaults = 3
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Opens Keeps Honest
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Shared = TRUE
  MaxChunks = 5
  MaxDeaths = 3
  MaxFaults = 2
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Opens Keeps Honest
CHECK_DEADLOCK FALSE

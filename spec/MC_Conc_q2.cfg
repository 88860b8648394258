SPECIFICATION Spec
CONSTANTS
  Programs <- Three
  Ticks = 1
  Size = 4
  Fault = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Linearizable NothingLost OneToOne InPlace Once

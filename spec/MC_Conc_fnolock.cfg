SPECIFICATION Spec
CONSTANTS
  Programs <- Two
  Ticks = 1
  Size = 4
  Fault = "nolock"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Linearizable NothingLost OneToOne InPlace Once

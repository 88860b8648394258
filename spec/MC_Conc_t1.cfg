SPECIFICATION Spec
CONSTANTS
  Programs <- Many
  Ticks = 2
  Size = 4
  Fault = "none"
  GenFile = ""
  GenDepth = 0
VIEW view
INVARIANTS Linearizable NothingLost OneToOne InPlace Once

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW view
INVARIANTS NoFailure QuietOk
CONSTANTS
  Conns = {1}
  W = 2
  QCap = 1
  Kinds = {"n1", "n2", "bad"}
  Hellos = {"hello"}
  MaxSend = 4
  Faults = {"panic"}
  BUG = "none"

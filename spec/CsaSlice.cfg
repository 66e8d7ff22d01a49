CONSTANTS
  L = 6
  Blocks = 2
  Runs = {0, 1, 2, 3}
  Kinds = {"stream", "enc", "dec", "matrix"}
  Bug = ""
SPECIFICATION Spec
INVARIANTS StreamRefines KeystreamRefines WindowInside BlockRefines BlockResult Networks Matrices
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

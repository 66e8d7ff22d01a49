SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  NCalls = 2
  Bug = ""
  Warm = FALSE
INVARIANTS AsAlone ContextsAsAlone FootprintDisjoint
PROPERTY Refines
VIEW NoHistory
CHECK_DEADLOCK FALSE

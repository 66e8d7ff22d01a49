SPECIFICATION Spec
CONSTANTS
  N = 2
  Lens = {0, 5, 8, 15, 16, 23, 24, 32}
  Limits = {0, 8, 16, 24}
  After = {0, 1}
  Cells = 3
  Ops = {"enc", "dec"}
  Bug = ""
INVARIANTS PerPacket UserUntouched SlotFits SlotsBound Independent ShortUnchanged
PROPERTIES Refines ArrayConstant Terminates
CHECK_DEADLOCK FALSE

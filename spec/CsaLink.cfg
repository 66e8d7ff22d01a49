INIT Init
NEXT Next
CONSTANTS
  Runs = {0, 1, 2, 3}
  Lens = {8, 9, 15, 16, 36}
  Full = FALSE
  Bug = ""
INVARIANTS BytesAreGroup RoundsAreCsa ScrambleIsCore DescrambleIsCore
CHECK_DEADLOCK FALSE

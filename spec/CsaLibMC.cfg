SPECIFICATION MCSpec
CONSTANTS
  SHandles = {0, 1}
  BHandles = {2}
  Words = {1, 2}
  Bufs = {0, 1}
  Addrs = {1, 2, 3}
  BatchSize = 2
  BlockLen = 8
  MaxLimit = 184
  Enc <- SymScramble
  Dec <- SymDescramble
  BEnc <- SymBatchScramble
  BDec <- SymBatchDescramble
  Lens <- MCLens
  Limits = {8, 184, 12}
  Depth = 1
  Bug = ""
INVARIANTS OwnMemory PayloadsDetermined LastWord RoundTrip
PROPERTIES StepsOk
VIEW HistView
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 6
  MaxPackets = 4
  Lens <- MCLens
  Counts <- MCCounts
  Limits <- MCLimits
  Longest <- MCLongest
  Bug = ""
INVARIANTS WorkBounded WorkExact OneFrame
PROPERTY Ends
CHECK_DEADLOCK FALSE

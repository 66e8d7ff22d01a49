SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2, 3, 4}
  Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 47}
  Bug = ""
INVARIANTS Vectors Tables KeyBits BlockInverse PacketInverse Streamed Local
CHECK_DEADLOCK FALSE

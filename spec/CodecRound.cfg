SPECIFICATION Spec
CONSTANTS
  Chars = {"a", "E", "C", "L", "R", "n"}
  BodyChars = {"a", "0", "L", "X", "R"}
  Names = 2
  Values = 2
  Bodies = 1
  Entries2 = TRUE
INVARIANTS RoundTrip Escaped Twice
CHECK_DEADLOCK FALSE

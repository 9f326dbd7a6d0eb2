SPECIFICATION Spec
INVARIANT Theory
CHECK_DEADLOCK FALSE
CONSTANTS
  Levels = 2
  WordLen = 6

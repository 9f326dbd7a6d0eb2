SPECIFICATION Spec
INVARIANT Theory
CHECK_DEADLOCK FALSE
CONSTANTS
  Levels = 4
  WordLen = 7

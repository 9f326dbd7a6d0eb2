SPECIFICATION Spec
INVARIANT Theory
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  NN = 2
  MaxProds = 4
  MaxLen = 2
  WordLen = 4
  WithErr = FALSE

SPECIFICATION Spec
VIEW view
INVARIANTS Ends_ StackSound Verdict NoFalseAlarm Honest Recovered GivesUpAtEnd
PROPERTY OnlyForward
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 1
  NN = 1
  MaxProds = 3
  MaxLen = 3
  TextLen = 3
  Guards = {"true","false","la"}
  Bound = 60

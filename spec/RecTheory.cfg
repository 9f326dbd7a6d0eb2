SPECIFICATION Spec
VIEW view
INVARIANTS Ends_ StackSound Verdict NoFalseAlarm Honest Recovered GivesUpAtEnd
PROPERTY OnlyForward
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 1
  NN = 2
  MaxProds = 3
  MaxLen = 2
  TextLen = 3
  Guards = {}
  Bound = 60

INIT Init
NEXT Next
INVARIANT Count
POSTCONDITION Post
CHECK_DEADLOCK FALSE

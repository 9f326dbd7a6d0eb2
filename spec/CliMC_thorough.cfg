CONSTANT Deep = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Independent
PROPERTIES NoClobber OnlyOutputs Faithful NoTrace Again
CHECK_DEADLOCK FALSE

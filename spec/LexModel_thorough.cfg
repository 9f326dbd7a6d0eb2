SPECIFICATION Spec
CONSTANTS MaxText = 3 MaxInj = 2 MaxLab = 2
INVARIANTS Tiling Munch Unexpected Nested Located Complete Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxText = 3 MaxInj = 1 MaxLab = 2
INVARIANTS Tiling Munch Unexpected Nested Located Complete Bounded
CHECK_DEADLOCK FALSE

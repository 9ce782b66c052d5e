SPECIFICATION MCSpec
CONSTANTS
 MaxOps = 6
 G = {0, 1, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Continuous Reached Bounded

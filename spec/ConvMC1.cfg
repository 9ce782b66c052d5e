SPECIFICATION MCSpec
CONSTANTS
 B = 1
 Len0 = 3
 Fade = 0
 NF = 2
 MaxOps = 6
 Samples = {1, 2}
 Kind = "mc"
CHECK_DEADLOCK FALSE
INVARIANTS Refines Settles InRange Bounded

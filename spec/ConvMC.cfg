SPECIFICATION MCSpec
CONSTANTS
 B = 2
 Len0 = 3
 Fade = 3
 NF = 1
 MaxOps = 6
 Samples = {0, 1}
 Kind = "xf"
CHECK_DEADLOCK FALSE
INVARIANTS Refines Settles InRange Bounded

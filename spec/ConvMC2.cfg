SPECIFICATION MCSpec
CONSTANTS
 B = 2
 Len0 = 4
 Fade = 4
 NF = 2
 MaxOps = 6
 Samples = {0, 1}
 Kind = "xf"
CHECK_DEADLOCK FALSE
INVARIANTS Refines Settles InRange Bounded

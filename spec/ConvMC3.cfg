SPECIFICATION MCSpec
CONSTANTS
 B = 1
 Len0 = 2
 Fade = 2
 NF = 1
 MaxOps = 8
 Samples = {0, 1}
 Kind = "xf"
CHECK_DEADLOCK FALSE
INVARIANTS Refines Settles InRange Bounded

SPECIFICATION MCSpec
CONSTANTS
 Range = 2
 Times = {0, 1, 2}
 Faces = {0, 1, 2}
 MaxMsgs = 4
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
INVARIANTS Compose Norms Inverse Sandwich Isometry Signs Convention Chosen

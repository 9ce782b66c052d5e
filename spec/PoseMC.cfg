SPECIFICATION MCSpec
CONSTANTS
 Range = 1
 Times = {0, 1, 2}
 Faces = {0, 1, 2}
 MaxMsgs = 3
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
INVARIANTS Compose Norms Inverse Sandwich Isometry Signs Convention Chosen

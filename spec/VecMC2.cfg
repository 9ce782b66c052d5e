SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS LEN = 2
 Vals <- ValsB
 Scal <- ScalB
 Deep = TRUE
 BOUND = 3

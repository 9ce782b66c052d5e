SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS LEN = 3
 Vals <- ValsA
 Scal <- ScalA
 Deep = TRUE
 BOUND = 0

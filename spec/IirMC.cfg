SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 5
 Values = {0, 1, 2}
CHECK_DEADLOCK FALSE
INVARIANTS DifferenceEquation FirDirect

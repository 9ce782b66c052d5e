SPECIFICATION MCSpec
CONSTANTS
 MaxBlocks = 7
 Caps = {0, 1, 2, 3}
 Values = {1, 2, 4}
CHECK_DEADLOCK FALSE
INVARIANTS RingShows Counts Latest Welford Spread

SPECIFICATION Fair
CONSTANTS
 MaxMsg = 7
 MaxAgain = 3
 MaxErr = 1
 Big = {1, 4, 5}
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OneOutstanding Exclusive
PROPERTIES Refines Delivered

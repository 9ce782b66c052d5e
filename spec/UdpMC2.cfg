SPECIFICATION Fair
CONSTANTS
 MaxMsg = 5
 MaxAgain = 2
 MaxErr = 1
 Big = {1, 4}
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OneOutstanding Exclusive
PROPERTIES Refines Delivered

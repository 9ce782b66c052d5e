SPECIFICATION Fair
CONSTANTS
 MaxMsg = 3
 MaxAgain = 2
 MaxErr = 1
 Big = {2}
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OneOutstanding Exclusive
PROPERTIES Refines Delivered

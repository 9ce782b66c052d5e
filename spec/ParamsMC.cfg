SPECIFICATION MCSpec
CONSTANTS
 MaxOps = 4
CHECK_DEADLOCK FALSE
INVARIANTS Shapes Refused Copied Swapped Moved Others

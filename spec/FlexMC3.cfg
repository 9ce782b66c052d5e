SPECIFICATION MCSpec
CONSTANTS
 Null = 0
 P = 3
 N = 2
 MaxIn = 9
 MaxCall = 7
CHECK_DEADLOCK FALSE
INVARIANTS Latency Stream Complete
PROPERTY CallsReturn

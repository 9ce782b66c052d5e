SPECIFICATION MCSpec
CONSTANTS MODE = "ALL"
 Sig = 1
 MaxE = 9
 Blocks = 2
INVARIANTS Denoted NeverStuck AcceptedIsConsistent OneSenderPerReceiver
CHECK_DEADLOCK FALSE

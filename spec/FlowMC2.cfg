SPECIFICATION MCSpec
CONSTANTS MODE = "ALL"
 Sig = 2
 MaxE = 13
 Blocks = 2
INVARIANTS Denoted NeverStuck AcceptedIsConsistent OneSenderPerReceiver
CHECK_DEADLOCK FALSE

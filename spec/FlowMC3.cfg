SPECIFICATION MCSpec
CONSTANTS MODE = "ALL"
 Sig = 3
 MaxE = 9
 Blocks = 2
INVARIANTS Denoted NeverStuck AcceptedIsConsistent OneSenderPerReceiver
CHECK_DEADLOCK FALSE
CONSTRAINT QBound

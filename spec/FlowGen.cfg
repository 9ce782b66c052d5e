SPECIFICATION GSpec
CONSTANTS MODE = "ALL"
 Sig <- GSig
 MaxE = 13
 Blocks = 1
INVARIANTS EmitA
CHECK_DEADLOCK FALSE

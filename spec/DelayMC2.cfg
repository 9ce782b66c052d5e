SPECIFICATION MCSpec
CONSTANTS
 L = 3
 Alloc = 3
 MaxOps = 5
 Values2 = {1}
CHECK_DEADLOCK FALSE
INVARIANTS ReadsAgree NoJump Arrives

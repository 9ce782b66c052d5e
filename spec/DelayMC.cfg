SPECIFICATION MCSpec
CONSTANTS
 L = 3
 Alloc = 4
 MaxOps = 4
 Values2 = {1, 2}
CHECK_DEADLOCK FALSE
INVARIANTS ReadsAgree NoJump Arrives

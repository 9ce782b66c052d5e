SPECIFICATION Spec
CONSTANTS
  Chans = {1, 2}
INVARIANTS Coherent Copied
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS L = 6
INVARIANTS Exact Inverse Power Cola Shift Causal Silence Accepted
CHECK_DEADLOCK FALSE

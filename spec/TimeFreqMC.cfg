SPECIFICATION Spec
CONSTANTS L = 4
INVARIANTS Exact Inverse Power Cola Shift Causal Silence Accepted
CHECK_DEADLOCK FALSE

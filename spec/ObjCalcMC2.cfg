SPECIFICATION Spec
CONSTANTS K = 2
 R = 1
INVARIANTS Consistent Levels Diffuse Shifted Wave Exclusive Routings Nearest Refusal
CHECK_DEADLOCK FALSE

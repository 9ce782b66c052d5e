SPECIFICATION MCSpec
CONSTANTS
 CIds = {1, 2, 3, 4}
 PIds = {11, 12}
 CNames = {"a", "b"}
 PNames = {"x"}
 Depth = 6
CHECK_DEADLOCK FALSE
INVARIANTS UniqueNames UniquePorts TreeLinks PortLinks FindExact FullUnique SharedTime

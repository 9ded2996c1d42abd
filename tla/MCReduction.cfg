SPECIFICATION Spec
CONSTANTS
 R = 3
 NMat = 2
 MaxLen = 2
 Mutation = ""
INVARIANTS Inv Equal NoDeadlock
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Ts = {1, 2}
 Scales = {0, 2}
 InitScales = {1}
 MaxSteps = 3
 MaxBwd = 2
 MaxPend = 1
 MaxSnap = 0
 Mutation = "none"
INVARIANTS RefreshSteps OnlyOwnStep PendingOwn Flushed NotDueNoAcc Unscaled NoResidue UpdateOnce Bounded Counted
CHECK_DEADLOCK FALSE
